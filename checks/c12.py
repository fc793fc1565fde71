"""C12: the command registry."""
import ast
import importlib
import itertools
import os
import random
import warnings

import z3

from pyvc import cmds, fn, runner
from pyvc import interp as I
from pyvc.compare import Ob
from pyvc.values import *          # noqa: F401,F403
from checks import machine as M
from ksspec import regspec as S


def B():
    return importlib.import_module("pykickstart.base")


class W:
    def __init__(self):
        self.ip = cmds.new_ip()
        self.st = fn.start(self.ip)
        self.names = z3.Function("name of command", z3.IntSort(), z3.StringSort())

    def view(self, st, kind):
        return []

    def obj(self, st, name, **a):
        ip = self.ip
        k = ip.new(st, HInst(S.Named, {"__name__": name}))
        return ip.new(st, HInst(S.Command, dict(a, __class__=k)))


def emit(st, *ev):
    st = st.fork()
    st.emit(ev)
    return st


# ------------------------------------------------------------------ _insertSorted
def p_insert(rec):
    """the list is any strictly sorted list; the loop is cut at an arbitrary index with the invariant that what lies
    before the index is smaller"""
    w = W()
    ip, st = w.ip, w.st
    n = z3.Int("length")
    st.assume(n >= 0)
    name = sym_str("class name", Dom(nonempty=True, name="class name"))
    nz = rope_z(name)
    lst = ip.new(st, HInst(S.Sorted, {}))
    obj = w.obj(st, name)
    hd = ip.new(st, HInst(B().KickstartHandler, {}))
    fn.freeze(ip, st)
    at = lambda i: w.names(i)
    side = []

    def length(ip, st, args, kw):
        return [(st, mk_int(n))]

    def getitem(ip, st, args, kw):
        i = iz(args[1])
        side.append(Ob("the index lies inside the list", And(*st.pc, Not(z3.And(i >= 0, i < n)))))
        st = st.fork()
        # what strict sorting says about this place and its neighbour
        st.assume(z3.Implies(z3.And(i >= 1, i < n), at(i - 1) < at(i)))
        return [(st, w.obj(st, z3str(at(i))))]

    def change(what):
        def m(ip, st, args, kw):
            return [(emit(st, what, *args[1:]), None)]
        return m
    ip.models[S.Sorted.__len__] = length
    ip.models[S.Sorted.__getitem__] = getitem
    ip.models[S.Sorted.__setitem__] = change("replace")
    ip.models[S.Sorted.insert] = change("insert")
    ip.models[S.Sorted.append] = lambda ip, st, args, kw: [(emit(st, "insert", mk_int(n), args[1]), None)]

    def inv(i):
        return z3.And(i >= 0, i <= n, z3.Or(i == 0, at(i - 1) < nz))
    loops = []

    def contract(node, fr):
        if fr.glob.get("__name__") != "pykickstart.base":
            return None
        return loop

    def loop(ip, node, st, fr):
        loops.append(node)
        st = st.fork()
        stored = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        env = dict(st.envs[fr.fid])
        carried = [x for x in sorted(stored) if x in env and env[x] is not ABSENT]
        if len(carried) != 1 or not is_int(env[carried[0]]):
            raise Unsupported("the index of the loop")
        x = carried[0]
        side.append(Ob("the invariant holds at the start", And(*st.pc, Not(inv(iz(env[x]))))))
        i = z3.Int("index")
        env[x] = SInt(i)
        st.envs[fr.fid] = env
        st.assume(inv(i))
        out = []
        for s, c in ip.ev(node.test, st, fr):
            a, b = ip.branch(s, ip.truth(s, c))
            if b is not None:
                out += ip.block(node.orelse, b, fr) if node.orelse else [(b, "n", None)]
            if a is not None:
                for s2, k, v in ip.block(node.body, a, fr):
                    if k in ("n", "c"):
                        j = iz(s2.envs[fr.fid][x])
                        side.append(Ob("the invariant is kept", And(*s2.pc, Not(inv(j)))))
                        side.append(Ob("the loop comes to an end", And(*s2.pc, Not(z3.And(j > i, n - i > 0)))))
                    elif k == "b":
                        out.append((s2, "n", None))
                    else:
                        out.append((s2, k, v))
        return out
    ip.loop_contract = contract
    nr, rr = fn.call(ip, st, B().KickstartHandler._insertSorted, [hd, lst, obj])
    if len(loops) != 1:
        raise Unsupported("the loop over the list was not found")
    obs = list(side)
    for g, s, k, h in fn.exc_alts(ip, rr):
        obs.append(Ob("no exception", And(g)))
    for s, v in nr:
        pc = And(*s.pc)
        ev = list(s.trace)
        if len(ev) != 1:
            obs.append(Ob("exactly one change of the list", pc))
            continue
        what, p, x = ev[0]
        if not (isinstance(x, Ref) and x.id == obj.id):
            obs.append(Ob("the command itself is put in", pc))
            continue
        p = iz(p)
        if what == "insert":
            good = z3.And(p >= 0, p <= n, z3.Or(p == 0, at(p - 1) < nz), z3.Or(p == n, nz < at(p)))
            obs.append(Ob("inserted between a smaller and a greater name", And(pc, Not(good))))
        else:
            obs.append(Ob("replaced in the place of the same name", And(pc, Not(z3.And(p >= 0, p < n, at(p) == nz)))))
    return fn.settle(ip, obs, rec, "_insertSorted")


def z3str(z):
    return SStr((Atom(z, Dom(nonempty=True, name="class name")),))


# ------------------------------------------------------------------ _setCommand
def p_set(rec, underscore, prio):
    w = W()
    ip, st = w.ip, w.st
    head, tail = sym_str("version part", Dom(no="_", name="version part")), sym_str("own part", Dom(name="own part"))
    plain = sym_str("class name", Dom(no="_", nonempty=True, name="class name"))
    name = SStr(head.parts + ("_",) + tail.parts) if underscore else plain
    p = None if prio is None else SInt(z3.Int("priority"))
    obj = w.obj(st, name, writePriority=p)
    lst = ip.new(st, HInst(S.Sorted, {}))
    order = ip.new(st, HInst(S.Order, {}))
    hd = ip.new(st, HInst(B().KickstartHandler, {"_writeOrder": order}))
    fn.freeze(ip, st)
    there = prio == "known"

    def same(ip, st, k):
        return p is not None and z3.is_true(z3.simplify(iz(k) == iz(p)))

    def contains(ip, st, args, kw):
        if not same(ip, st, args[1]):
            raise Unsupported("another priority")
        return [(st, there)]

    def getitem(ip, st, args, kw):
        if not same(ip, st, args[1]):
            raise Unsupported("another priority")
        if not there:
            ip.raise_new(st, KeyError, args[1])
            return []
        return [(st, lst)]

    def get(ip, st, args, kw):
        if not same(ip, st, args[1]):
            raise Unsupported("another priority")
        return [(st, lst if there else (args[2] if len(args) > 2 else None))]

    def setitem(ip, st, args, kw):
        h = ip.get(st, args[2]) if isinstance(args[2], Ref) else None
        if not isinstance(h, HList):
            raise Unsupported("what is put in the order")
        return [(emit(st, "new list", args[1], tuple(x.v for x in h.items)), None)]
    ip.models[S.Order.__contains__] = contains
    ip.models[S.Order.__getitem__] = getitem
    ip.models[S.Order.get] = get
    ip.models[S.Order.__setitem__] = setitem
    ip.models[B().KickstartHandler._insertSorted] = lambda ip, st, args, kw: [(emit(st, "insert", *args[1:]), None)]
    ip.models[setattr] = lambda ip, st, args, kw: [(emit(st, "attribute", *args), None)]
    nr, rr = fn.call(ip, st, B().KickstartHandler._setCommand, [hd, obj])
    obs = [Ob("no exception", g) for g, s, k, h in fn.exc_alts(ip, rr)]
    st2 = st.fork()
    (s_want, want), = fn.call(ip, st2, S.lower, [tail if underscore else plain])[0]
    for s, v in nr:
        pc = And(*s.pc)
        evs = {e[0]: e for e in s.trace}
        if len(evs) != len(s.trace) or "attribute" not in evs:
            obs.append(Ob("one attribute is set", pc))
            continue
        a = evs["attribute"]
        is_obj = lambda x: isinstance(x, Ref) and x.id == obj.id
        obs.append(Ob("the attribute is set on the handler to the command", And(pc, not (a[1].id == hd.id and is_obj(a[3])))))
        obs.append(Ob("the attribute is the class name without the version", And(pc, Not(ip.eq(s, a[2], want)))))
        exp = {None: None, "known": "insert", "new": "new list"}[prio]
        rest = [e for e in s.trace if e[0] != "attribute"]
        if [e[0] for e in rest] != ([exp] if exp else []):
            obs.append(Ob("put in the order of writing", pc))
        elif exp == "insert":
            obs.append(Ob("put in the list of its priority", And(pc, not (isinstance(rest[0][1], Ref) and rest[0][1].id == lst.id and is_obj(rest[0][2])))))
        elif exp:
            ok = len(rest[0][2]) == 1 and is_obj(rest[0][2][0])
            obs.append(Ob("a new list for its priority", And(pc, Not(And(ok, ip.eq(s, rest[0][1], p))))))
    return fn.settle(ip, obs, rec, "_setCommand, %s, priority %s" % ("version in the name" if underscore else "plain name", prio))


# ------------------------------------------------------------------ native search
def classes():
    """classes with every sort of name and priority"""
    K = B().KickstartCommand

    def mk(name, prio):
        def __init__(self, writePriority=prio, *args, **kwargs):
            K.__init__(self, writePriority, *args, **kwargs)
            self.op = None

        def __str__(self):
            return "%s %d\n" % (name, id(self))
        return type(name, (K,), {"__init__": __init__, "__str__": __str__, "parse": lambda self, args: self})
    return [mk(n, p) for n, p in (("F9_Part", 10), ("F12_Part", 10), ("Own", 10), ("F9_Zed", 10), ("FC3_A_B", 0), ("Abc", None), ("F9_Alpha", 10), ("Lang", -3), ("F10_Zed", 99))]


def check(h, reg, ids):
    """the handler h against the model; ids: serial number -> real object"""
    if set(h.commands) != set(reg.names):
        return "the registered names are %s instead of %s" % (sorted(h.commands), sorted(reg.names))
    for n, o in reg.names.items():
        c = h.commands[n]
        if (c is None) != (o is None):
            return "%s is masked or not wrongly" % n
        if c is None:
            continue
        if type(c).__name__ != o[0].__name__:
            return "%s leads to a %s instead of a %s" % (n, type(c).__name__, o[0].__name__)
        if ids.setdefault(o[1], c) is not c:
            return "the names of one command lead to different objects, or a reset command kept its object (%s)" % n
        if getattr(c, "handler", None) is not h:
            return "the owner of %s is not the handler" % n
        if reg.attrs.get(S.attribute(o[0].__name__)) == o and getattr(h, S.attribute(o[0].__name__), None) is not c:
            return "the attribute %s is not the object of the name %s" % (S.attribute(o[0].__name__), n)
    if len({id(v) for v in ids.values()}) != len(ids):
        return "a reset command kept its old object"
    want = [ids[o[1]] for o in reg.written()]
    got = [c for p in sorted(h._writeOrder) for c in h._writeOrder[p]]
    if [id(x) for x in got] != [id(x) for x in want]:
        return "written in the order %s instead of %s" % ([type(x).__name__ for x in got], [type(x).__name__ for x in want])
    try:
        text = B().KickstartHandler.__str__(h)
        text2 = "".join(str(c) for c in want)
    except Exception:                              # noqa: B902
        return None
    if text != text2:
        return "the written text is not the commands' texts in order"
    return None


def sequences(seed, n):
    rng = random.Random("C12 %d" % seed)
    cs = classes()
    names = ["part", "partition", "zed", "own"]
    ops = [("register", x, i) for x in names for i in range(len(cs))] + [("reset", x) for x in names]
    fixed = [list(p) for k in (1, 2) for p in itertools.product(ops, repeat=k)]

    def go(seq):
        h = B().KickstartHandler()
        reg, ids = S.Registry(), {}
        for op in seq:
            if op[0] == "register":
                h.registerCommand(op[1], cs[op[2]])
                reg.register(op[1], cs[op[2]])
            else:
                try:
                    reg.reset(op[1])
                    want = None
                except KeyError:
                    want = KeyError
                try:
                    h.resetCommand(op[1])
                    got = None
                except Exception as e:              # noqa: B902
                    got = type(e)
                if got is not want:
                    return "resetCommand raises %s instead of %s" % (got, want)
            bad = check(h, reg, ids)
            if bad:
                return bad
        return None
    for i in range(n):
        seq = fixed[i] if i < len(fixed) else [rng.choice(ops) for _ in range(rng.choice([3, 4, 5, 6, 8, 10, 14]))]
        yield None
        try:
            bad = go(seq)
        except Exception as e:                      # noqa: B902
            bad = "%s: %s" % (type(e).__name__, e)
        if bad:
            text = [(o[0], o[1]) + ((cs[o[2]].__name__, cs[o[2]]().writePriority) if len(o) > 2 else ()) for o in seq]
            yield ("after %r: %s" % (text, bad), {"operations": text, "how": "on KickstartHandler(): registerCommand(name, class) / resetCommand(name)"}, "sequence")


def versions(part, parts, seed):
    """the handler of every version, also with custom maps, resets and masks"""
    from pykickstart.version import versionMap, returnClassForVersion
    from pykickstart.handlers.control import commandMap, dataMap
    rng = random.Random("C12v %d" % seed)
    cs = classes()
    vs = sorted(set(versionMap.values()))

    def build(mapping):
        reg = S.Registry()
        for k, v in mapping.items():
            reg.register(k, v)
        return reg
    for v in vs[part::parts]:
        cls = returnClassForVersion(v)
        before = dict(commandMap[v]), dict(dataMap[v])
        cases = [("default", {}, commandMap[v], dataMap[v])]
        some = dict(rng.sample(sorted(commandMap[v].items()), 5))
        cases += [("mapping", {"mapping": some}, some, dataMap[v]),
                  ("empty mapping", {"mapping": {}, "dataMapping": {}}, commandMap[v], dataMap[v]),
                  ("updates", {"commandUpdates": {"part": cs[2], "own": cs[2], "new": cs[4]}, "dataUpdates": {"OwnData": int}},
                   dict(commandMap[v], part=cs[2], own=cs[2], new=cs[4]), dict(dataMap[v], OwnData=int)),
                  ("mapping and updates", {"mapping": some, "commandUpdates": {"lang": cs[7]}, "dataMapping": {"X": int}, "dataUpdates": {"X": float}},
                   dict(some, lang=cs[7]), {"X": float})]
        for name, kw, cmap, dmap in cases:
            yield None
            what = {"version": v, "case": name}
            try:
                h = cls(**kw)
                reg, ids = build(cmap), {}
                bad = check(h, reg, ids)
                for k, d in dmap.items():
                    if not bad and getattr(h, k, None) is not d:
                        bad = "the data class %s is not an attribute" % k
                if not bad and (dict(commandMap[v]), dict(dataMap[v])) != before:
                    bad = "the shared map of the version changed"
                if not bad and name in ("default", "updates"):
                    for k in sorted(cmap):
                        yield None
                        h.resetCommand(k)
                        reg.reset(k)
                        bad = check(h, reg, ids)
                        if bad:
                            bad = "after resetCommand(%r): %s" % (k, bad)
                            break
                if not bad:
                    bad = masked(h, rng)
                if not bad and [h.hasCommand(x) for x in ("nosuch", S.attribute(sorted(cmap.values(), key=lambda c: c.__name__)[0].__name__))] != [False, True]:
                    bad = "hasCommand is wrong"
            except Exception as e:                  # noqa: B902
                bad = "%s: %s" % (type(e).__name__, e)
            if bad:
                yield ("handler of version %s, %s: %s" % (v, name, bad), what, "version")


def masked(h, rng):
    keep = rng.sample(sorted(h.commands), 2) + ["nosuch"]
    before = dict(h.commands)
    h.maskAllExcept(keep)
    if set(h.commands) != set(before):
        return "masking changed the registered names"
    for k, v in before.items():
        if h.commands[k] is not (v if k in keep else None):
            return "masking treats %s wrongly" % k
    other = [k for k in before if k not in keep][0]
    attrs = dict(vars(before[other]))
    if h.dispatcher([other, "--any", "thing"], 3) is not None or vars(before[other]) != attrs:
        return "a masked command was processed"
    return None


NV = 4
PROOFS = {"insert": p_insert, "set": p_set, "dispatch": M.p_dispatch}


def tasks():
    return [("insert",), ("dispatch",)] + [("set", u, p) for u in (True, False) for p in (None, "known", "new")] + \
        [("native sequences",), ("native dispatch",)] + [("native versions", i) for i in range(NV)]


def run(task, rec):
    warnings.simplefilter("ignore")
    big = os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    label = " ".join(str(x) for x in task)
    if task[0] == "native sequences":
        fn.prove_then_search("registering and resetting", rec, None, sequences(seed, 60000 if big else 6000))
    elif task[0] == "native versions":
        fn.prove_then_search("handlers", rec, None, versions(task[1], NV, seed))
    elif task[0] == "native dispatch":
        from checks import machine_native as N
        fn.prove_then_search("dispatching", rec, None, N.dispatch())
    else:
        fn.prove_then_search(label, rec, lambda r: PROOFS[task[0]](r, *task[1:]), ())
    if task[0].startswith("native"):
        rec.bounded_for.append("%s: real code against a model of the registry, %d cases" % (label, rec.bounded))


TRUSTED = ["ghost commands, classes and lists (ksspec.regspec): a list of commands of one priority is strictly sorted by class name (kept by _insertSorted, proved)",
           "registerCommand, resetCommand, _registerCommands and maskAllExcept are decided by the bounded native search only"]


def main():
    return runner.main("C12", tasks(), run, trusted=TRUSTED)
