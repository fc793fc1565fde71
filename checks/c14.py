"""C14: handlers share nothing, parsing writes only to its own handler, rendering writes to nothing."""
import gc
import importlib
import os
import pkgutil
import random
import re
import sys
import types
import warnings

import z3

from pyvc import cmds, concrete, fn, runner
from pyvc import interp as I
from pyvc.compare import Ob, havoc_prior
from pyvc.values import *          # noqa: F401,F403
from ksspec import sections as S
from ksspec.version import versionMap
from checks import c09, c10

ATOMIC = (str, bytes, int, float, complex, bool, type(None), types.BuiltinFunctionType, types.ModuleType, re.Pattern, types.MethodDescriptorType,
          types.WrapperDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType, range, slice)


def package_modules():
    import pykickstart
    for m in pkgutil.walk_packages(pykickstart.__path__, "pykickstart."):
        importlib.import_module(m.name)
    return [m for n, m in sorted(sys.modules.items()) if n == "pykickstart" or n.startswith("pykickstart.")]


def ours(k):
    return (getattr(k, "__module__", "") or "").startswith("pykickstart")


def children(v, shared):
    """what a value refers to; into classes and functions only on the shared side"""
    if isinstance(v, dict):
        return list(v.keys()) + list(v.values())
    if isinstance(v, (list, tuple, set, frozenset)):
        return list(v)
    if isinstance(v, type):
        return [x for k, x in vars(v).items() if k not in ("__dict__", "__weakref__", "__doc__")] + list(v.__bases__) if shared and ours(v) else []
    if isinstance(v, types.FunctionType):
        if shared and ours(v):
            return list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()) + list(vars(v).values()) + [c.cell_contents for c in (v.__closure__ or ()) if cell_full(c)]
        return []
    if isinstance(v, (staticmethod, classmethod)):
        return [v.__func__]
    if isinstance(v, property):
        return [v.fget, v.fset, v.fdel]
    if isinstance(v, types.MethodType):
        return [v.__self__, v.__func__]
    out = []
    if hasattr(v, "__dict__") and isinstance(vars(v), dict):
        out += list(vars(v).values())
    for k in type(v).__mro__:
        for n in getattr(k, "__slots__", ()) if isinstance(getattr(k, "__slots__", ()), (list, tuple)) else ():
            if hasattr(v, n):
                out.append(getattr(v, n))
    return out


def cell_full(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def reach(roots, shared=False):
    """{id: object} of everything mutable reachable; with shared also through classes, functions and their defaults"""
    seen, out, todo = set(), {}, list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, ATOMIC) or id(v) in seen:
            continue
        seen.add(id(v))
        if not isinstance(v, (type, types.FunctionType, tuple, frozenset, staticmethod, classmethod, property, types.MethodType)):
            out[id(v)] = v
        if type(v).__module__ in ("gettext", "logging", "threading"):
            continue
        todo.extend(children(v, shared))
    return out


def common():
    """everything mutable that belongs to no handler: module globals, class attributes, defaults of functions"""
    roots = []
    for m in package_modules():
        roots.extend(v for k, v in vars(m).items() if not k.startswith("__") and not isinstance(v, types.ModuleType))
    return reach(roots, True)


def name_of(v):
    return "%s %s" % (type(v).__name__, concrete.short(v, 60) if hasattr(concrete, "short") else "")


# ------------------------------------------------------------------ handlers share nothing
def disjoint(rec):
    """all versions, two handlers with a parser each: every mutable object belongs to one of them (evaluated)"""
    problems = []
    owner = {}
    hold = []
    for v in sorted(set(versionMap.values())):
        for n in (1, 2):
            h = cmds.real_handler(v)
            p = c10.P().KickstartParser(h)
            hold.append((h, p))
    shared = common()
    skip = {id(h) for h, p in hold}
    for h, p in hold:
        mine = reach([h, p])
        for i, o in mine.items():
            if i in shared and id(h) not in shared:
                problems.append(("version %s: a handler holds an object it shares with all others" % h.version, name_of(o), h.version))
            elif i in owner and owner[i] is not h:
                problems.append(("versions %s and %s: two handlers share an object" % (owner[i].version, h.version), name_of(o), h.version))
            owner[i] = h
        rec.ob("handler and parser of version %s share nothing" % h.version, "failed" if problems else "discharged", "evaluation")
        if problems:
            break
    del skip
    for what, o, v in problems[:1]:
        yield ("%s: %s" % (what, o), {"version": v, "object": o}, "shared object")


# ------------------------------------------------------------------ frames
class Frame:
    """what a run may write: objects made by it, and those of one handler"""
    def __init__(self, ip, handler, extra=()):
        self.ip, self.owned = ip, reach([handler] + list(extra))
        self.shared = common()
        self.base = set(ip.base)

    def native(self, rid):
        return {v: k for k, v in self.ip.lifted.items()}.get(rid)

    def obligations(self, what, a, b, nothing=False, own_only=True, start=None):
        """a: state before, b: state after.  nothing: no object that was there before changes"""
        ip = self.ip
        back = {v: k for k, v in ip.lifted.items()}
        obs = []
        for key in sorted(b.heap, key=str):
            now = b.heap[key]
            if isinstance(key, tuple):
                if key[0] == "nat" and key[1] in self.owned and not nothing:
                    continue
                if key in a.heap and a.heap[key] is now:
                    continue
                if key[0] == "nat" and key[2] == "lineno":
                    continue                    # the option parser's note of the line: no data
                old = native_old(ip, key)
                obs.append(Ob("%s: %s is not written" % (what, key_name(key)), And(*b.pc, Not(ip.eq_abs(b, now, old) if old is not Ellipsis else False))))
                continue
            old = a.heap.get(key, ip.base.get(key) if key in self.base or key in back else None)
            if old is None or old is now:
                continue
            nat = back.get(key)
            if not nothing:
                if nat is None or nat in self.owned and nat not in self.shared:
                    continue
            same = same_obj(ip, b, old, now)
            obs.append(Ob("%s: %s is unchanged" % (what, label_of(now, nat, self)), And(*b.pc, Not(same))))
        return obs


def native_old(ip, key):
    try:
        if key[0] == "cls":
            return ip.lift(vars(key[1]).get(key[2], ABSENT))
    except Exception:           # noqa: B902
        pass
    return Ellipsis


def key_name(key):
    if key[0] == "cls":
        return "%s.%s" % (key[1].__name__, key[2])
    return "%s %s" % ({"glob": "global", "nat": "attribute"}.get(key[0], key[0]), key[2])


def label_of(now, nat, frame):
    if isinstance(now, HInst):
        return "a %s" % now.cls.__name__
    return "a %s" % type(now).__name__[1:].lower()


def same_obj(ip, st, x, y):
    """equal attribute by attribute, element by element (references compared by identity)"""
    if type(x) is not type(y):
        return False
    if isinstance(x, HInst):
        if x.cls is not y.cls:
            return False
        return And(*[same_val(ip, st, x.attrs.get(k, ABSENT), y.attrs.get(k, ABSENT)) for k in sorted(set(x.attrs) | set(y.attrs), key=str)])
    if isinstance(x, HDict):
        return And(*[same_val(ip, st, x.d.get(k, ABSENT), y.d.get(k, ABSENT)) for k in sorted(set(x.d) | set(y.d), key=str)])
    if x.items == y.items:
        return True
    if len(x.items) != len(y.items):
        return False
    out = []
    for p, q in zip(x.items, y.items):
        if isinstance(p, Item) and isinstance(q, Item):
            out += [Not(Or(And(p.g, Not(q.g)), And(q.g, Not(p.g)))), same_val(ip, st, p.v, q.v)]
        elif p != q:
            return False
    return And(*out)


def same_val(ip, st, x, y):
    if x is y:
        return True
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x.id == y.id
    if isinstance(x, SUnion) or isinstance(y, SUnion):
        xs = x.alts if isinstance(x, SUnion) else ((True, x),)
        ys = y.alts if isinstance(y, SUnion) else ((True, y),)
        return Or(*[And(g, h, same_val(ip, st, u, v)) for g, u in xs for h, v in ys])
    if x is ABSENT or y is ABSENT:
        return False
    return ip.eq_abs(st, x, y)


def p_command(rec, version, alias, label):
    """parse() writes only to its handler; __str__ writes to nothing that was there"""
    c = cmds.Ctx(version, alias, seen=True, havoc=havoc_prior)
    ip = c.ip
    ip.loose = True
    other = cmds.real_handler(version)
    frame = Frame(ip, c.handler)
    frame.shared.update(reach([other]))
    start = c.st
    nr, rr = c.parse()
    obs = []
    for s, _ in nr:
        obs += frame.obligations("parse", start, s)
    for s, e in rr:
        obs += frame.obligations("parse (failing)", start, s)
    n = 0
    failed = fn.settle(ip, obs, rec, label)
    rec.ob("%s: parse writes only to objects of its own handler" % label, "failed" if failed else "discharged", "z3" if obs else "simplifier")
    for s, ret in list(nr) + [(s, None) for s in ip.merge_states([s for s, e in rr])]:
        texts, rs = c.render(s, c.ref)
        for t, _ in list(texts) + [(x, None) for x, e in rs]:
            o = frame.obligations("__str__", s, t, nothing=True)
            failed += fn.settle(ip, o, rec, label)
            n += 1
        if isinstance(ret, Ref) and ret.id != c.ref.id and isinstance(ip.get(s, ret), HInst):
            texts, rs = c.render(s, ret)
            for t, _ in list(texts) + [(x, None) for x, e in rs]:
                o = frame.obligations("data __str__", s, t, nothing=True)
                failed += fn.settle(ip, o, rec, label)
    if n:
        rec.ob("%s: rendering writes to nothing that was there" % label, "failed" if failed else "discharged", "simplifier")
    return failed


# ------------------------------------------------------------------ sections, scripts, packages, the handler: frames on the calls other checks set up
PURE = ("__str__", "_processPackagesContent", "dataList", "deletedInstances")


class Tap:
    """stands in for pyvc.fn in the set-up of another check: the calls of real functions get frame obligations, its own obligations are left to it"""
    def __init__(self):
        self.obs, self.rec, self.seen = [], None, set()

    def __getattr__(self, n):
        return getattr(fn, n)

    def call(self, ip, st, f, args, kw=None):
        ip.loose, self.ip = True, ip
        nr, rr = fn.call(ip, st, f, args, kw)
        if not f.__module__.startswith("pykickstart"):
            return nr, rr
        back = {v: k for k, v in ip.lifted.items()}
        native = {id(x): x for x in ip.keep}
        frame = Frame(ip, None)
        me = native.get(back.get(args[0].id)) if isinstance(args[0], Ref) else None
        frame.owned = reach([me]) if me is not None else {}
        self.seen.add(f.__qualname__)
        pure = f.__name__ in PURE
        for s, _ in list(nr) + list(rr):
            for o in frame.obligations(f.__qualname__, st, s, nothing=pure):
                self.obs.append(o)
        self.obs.append(Ob("%s: writes %s" % (f.__qualname__, "to nothing that was there" if pure else "only to its own handler"), False))
        return nr, rr

    def settle(self, ip, obs, rec, label, timeout=20000):
        mine, self.obs = self.obs, []
        return fn.settle(ip, mine, rec, label, timeout)


def tapped(module, f, rec, *args):
    tap = Tap()
    module.fn = tap
    try:
        failed = f(rec, *args) or []
        if not tap.seen:
            raise Unsupported("no call of a real function in %s" % f.__name__)
        return failed
    except Unsupported:
        if not tap.obs:
            raise
        failed = tap.settle(tap.ip, [], rec, f.__name__)
        if not failed:
            raise
        return failed
    finally:
        module.fn = fn


def p_commands_text(rec, version):
    """the text of all commands, each command's text being that of its own proof"""
    from pykickstart.base import KickstartHandler
    ip = c10.new_ip()
    st = fn.start(ip)
    h, _ = c10.sections(version)
    hd = ip.lift(h)
    for a, c in sorted(h.commands.items()):
        f = type(c).__str__
        if f not in ip.models:
            ip.models[f] = lambda ip, s, args, kw: [(s, sym_str("text of %d" % args[0].id))]
    fn.freeze(ip, st)
    nr, rr = fn.call(ip, st, KickstartHandler.__str__, [hd])
    frame = Frame(ip, h)
    obs = [Ob("rendering writes to nothing that was there", False)]
    for s, _ in list(nr) + list(rr):
        obs += frame.obligations("KickstartHandler.__str__", st, s, nothing=True)
    return fn.settle(ip, obs, rec, "text of the commands, version %s" % version)


def p_version(rec, version):
    """the text of a handler's scripts and packages does not depend on what later parsers set on the classes"""
    failed = []
    for what in list(S.KINDS) + ["%packages"]:
        ip = c10.new_ip()
        st = fn.start(ip)
        h, secs = c10.sections(version)
        if what == "%packages":
            cls, ob = c10.P().Packages, ip.lift(h.packages)
            hp = ip.get(st, ob)
            for k, v in dict(c10.havoc_packages(""), seen=True).items():
                hp = hp.set(k, v)
            ip.models[cls._processPackagesContent] = lambda ip, s, a, kw: [(s, sym_str("content"))]
        else:
            cls, ob = c10.P().Script, c10.made_script(ip, h, secs[what])
            hp = ip.get(st, ob).set("interp", sym_str("interp", c10.ONE_LINE)).set("script", sym_str("script")).set(
                "logfile", c10.choice("log given", sym_str("log", Dom(no=c10.ONE_LINE.no)), None)).set("errorOnFail", SBool(z3.Bool("err"))).set("inChroot", SBool(z3.Bool("chroot")))
        ip.base[ob.id] = hp
        fn.freeze(ip, st)
        res = []
        for i in (1, 2):
            s = st.fork()
            for k in cls.__mro__:
                if "_ver" in vars(k):
                    s.heap[("cls", k, "_ver")] = SInt(z3.Int("version of parser %d" % i))
            res.append(fn.call(ip, s, cls.__str__, [ob]))
        obs = fn.relate(ip, res[0], res[1])
        failed += fn.settle(ip, obs, rec, "%s of a handler keeps its version, version %s" % (what, version))
    return failed


# ------------------------------------------------------------------ making handlers and parsers
def dump(v, seen=None, depth=0):
    """a value as nested tuples; equal dumps mean equal data and equal sharing"""
    seen = {} if seen is None else seen
    if isinstance(v, ATOMIC):
        return v if isinstance(v, (str, bytes, int, float, bool, type(None))) else id(v)
    if isinstance(v, types.FunctionType):
        return id(v.__code__)
    if isinstance(v, (type, staticmethod, classmethod, property)):
        return id(v)
    if id(v) in seen:
        return ("again", seen[id(v)])
    seen[id(v)] = len(seen)
    if isinstance(v, dict):
        return ("dict",) + tuple((dump(k, seen), dump(x, seen)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(dump(x, seen) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted((repr(x) for x in v)))
    if isinstance(v, types.MethodType):
        return ("method", dump(v.__self__, seen), id(v.__func__))
    if type(v).__module__ in ("gettext", "logging", "threading"):
        return id(v)
    return (type(v).__name__,) + tuple((k, dump(x, seen)) for k, x in sorted(getattr(v, "__dict__", {}).items()) if k not in IGNORED)


IGNORED = ()


def class_data():
    """everything that belongs to no handler, apart from the version that parsers leave on the classes"""
    out = []
    for m in package_modules():
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if ours(v) and v.__module__ == m.__name__:
                    for n, x in sorted(vars(v).items()):
                        if n == "_ver" or n in ("__dict__", "__weakref__", "__doc__"):
                            continue
                        out.append(("%s.%s.%s" % (m.__name__, k, n), dump(x)))
                        f = getattr(x, "__func__", x)
                        if isinstance(f, types.FunctionType) and (f.__defaults__ or f.__kwdefaults__):
                            out.append(("defaults of %s.%s" % (k, n), dump((f.__defaults__, f.__kwdefaults__))))
            elif isinstance(v, types.FunctionType):
                if v.__module__ == m.__name__ and (v.__defaults__ or v.__kwdefaults__):
                    out.append(("defaults of %s" % k, dump((v.__defaults__, v.__kwdefaults__))))
            else:
                out.append(("%s.%s" % (m.__name__, k), dump(v)))
    return out


def differ(a, b):
    da, db = dict(a), dict(b)
    for k in sorted(set(da) | set(db)):
        if da.get(k) != db.get(k):
            return k
    return None


def making(rec):
    """every version: making a handler and a parser changes no handler made before and nothing shared"""
    before = class_data()
    first = cmds.real_handler(versionMap["DEVEL"])
    fp = c10.P().KickstartParser(first)
    d0 = dump([first, fp])
    t0 = str(first)
    for v in sorted(set(versionMap.values())):
        h = cmds.real_handler(v)
        for kw in ({}, {"errorsAreFatal": False}, {"followIncludes": False, "missingIncludeIsFatal": False, "unknownSectionIsFatal": False}):
            c10.P().KickstartParser(h, **kw)
        k = differ(before, class_data())
        if k:
            yield ("making a handler and a parser of version %s changes %s" % (v, k), {"version": v, "what": k}, "making")
        if dump([first, fp]) != d0 or str(first) != t0:
            yield ("making a handler and a parser of version %s changes another handler" % v, {"version": v}, "making")
        rec.ob("making a handler and a parser of version %s changes nothing else" % v, "discharged", "evaluation")
        yield None


# ------------------------------------------------------------------ native search
def command_text(rng, v, aliases, gens):
    out = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        a = rng.choice(aliases)
        if (v, a) not in gens:
            gens[v, a] = concrete.Gen(v, a, rng)
        g = gens[v, a]
        g.rng = rng
        argv = g.line()
        out.append(" ".join([a] + [c10.q(x) for x in argv]) + "\n")
    return "".join(out)


class Case:
    """what one handler was last seen as"""
    def __init__(self, v):
        self.v, self.h = v, cmds.real_handler(v)
        self.p = c10.P().KickstartParser(self.h, missingIncludeIsFatal=False)
        self.note()

    def note(self):
        """before the data is rendered, and rendered"""
        self.data = dump([self.h, self.p])
        self.text = text_of(self.h)


def text_of(o):
    try:
        return str(o)
    except Exception as e:          # noqa: B902
        return "%s: %s" % (type(e).__name__, e)


FRESH = {}


def fresh_of(v):
    h = cmds.real_handler(v)
    return dump(h), text_of(h)


def shuffle(rng, o, depth=0):
    """other data of the same kind: the lists in another order"""
    for k, v in sorted(vars(o).items()):
        if isinstance(v, list) and not k.startswith("_") and depth < 3:
            if all(isinstance(x, str) for x in v):
                v += rng.sample(["zz", "mm", "aa"], rng.choice([0, 0, 2, 3])) if not v or rng.random() < .3 else []
            rng.shuffle(v)
            for x in v:
                if hasattr(x, "__dict__") and ours(type(x)):
                    shuffle(rng, x, depth + 1)


def session(rng, versions, gens, n=8):
    """a history of operations on several handlers; yields (problem, history)"""
    log, cases = [], []
    shared = class_data()
    for step in range(n):
        op = rng.choice(["new", "read", "read", "read", "lines", "text", "again", "data"]) if cases else "new"
        if op == "new":
            v = rng.choice(versions + [c.v for c in cases])
            log.append(("new", v))
            if v not in FRESH:
                FRESH[v] = fresh_of(v)
            elif fresh_of(v) != FRESH[v]:
                return ("a new handler of version %s differs from earlier ones" % v, log)
            mine = None
            made = Case(v)
        else:
            mine = rng.choice(cases)
            k = cases.index(mine)
            if op in ("read", "again"):
                aliases = sorted(mine.h.commands)
                text = command_text(rng, mine.v, aliases, gens) + (c10.make_text(rng, mine.v)[0] if rng.random() < .6 else "")
                log.append((op, k, text))
                if op == "again":
                    mine.p = c10.P().KickstartParser(mine.h, errorsAreFatal=False)
                attempt(lambda: mine.p.readKickstartFromString(text, reset=rng.random() < .5))
            elif op == "lines":
                a = rng.choice(sorted(mine.h.commands))
                if (mine.v, a) not in gens:
                    gens[mine.v, a] = concrete.Gen(mine.v, a, rng)
                gens[mine.v, a].rng = rng
                argv = gens[mine.v, a].line()
                log.append((op, k, a, argv))
                attempt(lambda: mine.h.dispatcher([a] + argv, 3))
            elif op == "data":
                log.append((op, k))
                for c in [mine.h.packages] + [x for a, x in sorted(mine.h.commands.items())]:
                    if c is not None:
                        shuffle(rng, c)
            else:
                log.append((op, k))
                a, d = mine.text, mine.data
                for c in sorted(mine.h.commands):
                    text_of(mine.h.commands[c])
                mine.note()
                if mine.text != a:
                    return ("rendering twice gives different texts", log)
                if mine.data != d:
                    return ("rendering changes the data", log)
        for c in cases:
            if c is mine:
                continue
            d = dump([c.h, c.p])
            if d != c.data:
                return ("an operation on another handler changes the data of handler %d" % cases.index(c), log)
            if text_of(c.h) != c.text:
                return ("an operation on another handler changes the text of handler %d" % cases.index(c), log)
            if dump([c.h, c.p]) != d:
                return ("rendering changes the data", log)
        if mine is None:
            cases.append(made)
        else:
            mine.note()
            t, d = mine.text, mine.data
            mine.note()
            if mine.text != t:
                return ("rendering twice gives different texts", log)
            if mine.data != d:
                return ("rendering changes the data", log)
    k = differ(shared, class_data())
    if k:
        return ("the history changes %s" % k, log)
    for v in {c.v for c in cases}:
        if fresh_of(v) != FRESH[v]:
            return ("a new handler of version %s differs from earlier ones" % v, log)
    return None


def attempt(f):
    try:
        f()
    except Exception:               # noqa: B902
        pass


def search(part, parts, seed, n):
    rng = random.Random("C14 %d %d" % (part, seed))
    every = sorted(set(versionMap.values()))
    gens = {}
    for i in range(n // parts):
        s = rng.random()
        versions = rng.sample(every, rng.choice([1, 1, 2]))
        r = session(random.Random(s), versions, gens)
        yield None
        if r:
            yield (r[0], {"history": [list(x) for x in r[1]]}, r[0])


NV = 6


def tasks():
    out = [("native", i) for i in range(NV)]
    out += [("handlers share nothing",), ("making handlers",)]
    heavy = ("firewall", "network", "raid", "logvol", "part", "partition")
    gs = [("command", g["versions"][0], g["alias"]) for g in cmds.groups() if g["real"] is not None]
    out += sorted(gs, key=lambda t: (t[2] not in heavy, t))
    out += [("version", v) for v in sorted(set(versionMap.values()))]
    out += [("sections",), ("lines",)]
    return out


def run(task, rec):
    warnings.simplefilter("ignore")
    big = os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if task[0] == "native":
        fn.prove_then_search("handlers side by side", rec, None, search(task[1], NV, seed, 20000 if big else 900), 600 if big else 120)
        rec.bounded_for.append("histories of up to 8 operations on several handlers, %d histories" % rec.bounded)
    elif task[0] == "handlers share nothing":
        fn.prove_then_search(task[0], rec, None, disjoint(rec))
    elif task[0] == "making handlers":
        fn.prove_then_search(task[0], rec, None, making(rec))
    elif task[0] == "command":
        _, version, alias = task
        label = "%s/%s" % (alias, type(cmds.real_handler(version).commands[alias]).__name__)
        fn.prove_then_search(label, rec, lambda r: p_command(r, version, alias, label), one_command(version, alias, seed, 300 if big else 12))
    elif task[0] == "version":
        v = task[1]

        def proof(rec):
            failed = []
            for f, a in ((c10.p_script_header, (v,)), (c10.p_packages_header, (v,)), (c10.p_packages, (v,)), (c10.p_handler, (v,))) + tuple(
                    (c10.p_script, (k, v)) for k in S.KINDS):
                failed += tapped(c10, f, rec, *a)
            return failed + p_commands_text(rec, v) + p_version(rec, v)
        fn.prove_then_search("version %s" % v, rec, proof, ())
    else:
        def proof(rec):
            failed = []
            if task[0] == "sections":
                for k in S.KINDS:
                    failed += tapped(c10, c10.p_finalize, rec, k)
                for k in (1, "any number"):
                    failed += tapped(c10, c10.p_null, rec, k)
                failed += tapped(c10, c10.p_content, rec)
                failed += tapped(c10, c10.p_group, rec)
            else:
                failed += tapped(c09, c09.p_group, rec)
                for k in ("comment", "no comment"):
                    failed += tapped(c09, c09.p_handle, rec, k)
                for k in c09.LINES:
                    failed += tapped(c09, c09.p_line, rec, k)
            return failed
        fn.prove_then_search(task[0], rec, proof, ())


def one_command(version, alias, seed, n):
    """one command natively: lines to one handler, another of the same version beside it"""
    rng = random.Random("C14 %s %s %d" % (alias, version, seed))
    gen = concrete.Gen(version, alias, rng)
    other = cmds.real_handler(version)
    od = dump(other.commands[alias])
    shared = class_data()
    log = []
    new = dump(cmds.real_handler(version).commands[alias])
    for i in range(n):
        h = cmds.real_handler(version)
        for _ in range(rng.choice([1, 1, 2])):
            argv = gen.line()
            log = [alias] + argv
            attempt(lambda: h.dispatcher([alias] + argv, 3))
        c = h.commands[alias]
        if rng.random() < .4:
            shuffle(rng, c)
        d = dump(c)
        t = text_of(c)
        yield None
        for o in (c.dataList() or []):
            text_of(o)
        if text_of(c) != t:
            yield ("rendering twice gives different texts after %r" % log, {"version": version, "line": log}, "twice")
        if dump(c) != d:
            yield ("rendering changes the data after %r" % log, {"version": version, "line": log}, "data")
        if dump(other.commands[alias]) != od:
            yield ("%r changes the data of another handler" % log, {"version": version, "line": log}, "other")
    if dump(cmds.real_handler(version).commands[alias]) != new:
        yield ("lines like %r change the defaults of handlers made later" % log, {"version": version, "line": log}, "later")
    k = differ(shared, class_data())
    if k:
        yield ("lines like %r change %s" % (log, k), {"version": version, "line": log}, "shared")


TRUSTED = ["the text of a handler is the concatenation of its parts' texts (C10), read lines reach their own handler's commands and sections (C06, C07)",
           "the version on the Script and Packages classes is set by every parser; it is excluded here (existing tests require it)"]


def main():
    return runner.main("C14", tasks(), run, trusted=TRUSTED,
                       assumptions=["two handlers and parsers of every version, made by the real constructors, are walked for shared objects; that the shape of the object graph does not depend on more than the version is evaluated, not proved"])
