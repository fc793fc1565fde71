"""C09: package selection."""
import importlib
import os
import random
import warnings

import z3

from pyvc import cmds, fn, models, runner
from pyvc.compare import Ob, joint
from pyvc.values import *          # noqa: F401,F403
from checks import machine as M
from ksspec import pkgspec as S

BLANK = Dom(ws=True, name="blank")


def P():
    return importlib.import_module("pykickstart.parser")


def strz(v):
    return rope_z(as_rope(v))


def occurs(t, c):
    if t.eq(c):
        return True
    return any(occurs(k, c) for k in t.children())


# ------------------------------------------------------------------ one line, any selection
# kind -> (text at the start, blanks behind it, first character behind that: None for an empty rest, else what it is not)
LINES = {"environment": ("@^", False, ""), "environment, blanks": ("@^", True, ""), "environment, bare": ("@^", False, None),
         "group": ("@", False, "^"), "group, blanks": ("@", True, ""), "group, bare": ("@", False, None),
         "not environment": ("-@^", False, ""), "not environment, blanks": ("-@^", True, ""), "not environment, bare": ("-@^", False, None),
         "not group": ("-@", False, "^"), "not group, blanks": ("-@", True, ""), "not group, bare": ("-@", False, None),
         "not package": ("-", False, "@"), "not package, blanks": ("-", True, ""), "not package, bare": ("-", False, None),
         "package": ("", False, "@-")}


def p_line(rec, kind):
    """one line in any state: the membership of an arbitrary name x afterwards"""
    ip = cmds.new_ip()
    st = fn.start(ip)
    Pk, Xk = ip.seq("selected packages", ANY), ip.seq("excluded packages", ANY)
    Gs, Es = ip.seq("selected groups", ANY), ip.seq("excluded groups", ANY)
    inc = z3.Function("how much of group", z3.StringSort(), z3.IntSort())
    G = P().Group
    lst = lambda q, v=None: ip.new(st, HList((Star(True, q, q.val if v is None else v),)))
    grp = ip.new(st, HInst(G, {"name": Gs.val, "include": SInt(inc(Gs.e))}))
    egr = ip.new(st, HInst(G, {"name": Es.val, "include": 1}))
    env = merge_val(z3.Bool("an environment"), sym_str("environment before"), None)
    pk = ip.new(st, HInst(P().Packages, {"packageList": lst(Pk), "excludedList": lst(Xk), "groupList": lst(Gs, grp), "excludedGroupList": lst(Es, egr),
                                        "environment": env}))
    ind, tail, rest = sym_str("indent", BLANK).parts, sym_str("blanks at the end", BLANK).parts, sym_str("rest", ANY).parts
    head, blanks, no = LINES[kind]
    mid = ()
    if no is None:
        rest = ()
    else:
        mid = sym_str("first", Dom(no=WS + no, one=True, name="first")).parts
        st.assume(z3.Length(strz(SStr(mid))) == 1)
        for c in WS + no:
            st.assume(strz(SStr(mid)) != z3.StringVal(c))
    if blanks:
        mid = sym_str("blanks in the middle", Dom(ws=True, nonempty=True, name="blank1")).parts + mid
        for c in "@^-":
            st.assume(Not(z3.Contains(strz(SStr(mid[:1])), z3.StringVal(c))))
        st.assume(z3.Length(strz(SStr(mid[:1]))) > 0)
    line = SStr(ind + ((head,) if head else ()) + mid + rest + tail)
    fn.freeze(ip, st)

    def group(ip, st, args, kw):
        st = st.fork()
        st.emit(("group", args[1]))
        return [(st, None)]
    ip.models[P().Packages._processGroup] = group
    # only the membership matters here: the order of the lists is left open
    ip.models[sorted] = lambda ip, st, args, kw: [(s2, ip.new(s2, HList(tuple(items)))) for s, items in models.iterate(ip, st, args[0]) for s2 in [s.fork()]]
    ip.split_words = True
    arg = ip.new(st, HList((Item(True, line),)))
    nr, rr = fn.call(ip, st, P().Packages.add, [pk, arg])
    ns, rs = fn.call(ip, st, S.classify, [line])
    obs = fn.relate(ip, ([(s, None) for s, _ in nr], rr), ([(s, None) for s, _ in ns], rs))

    # the lists afterwards, as predicates
    x = z3.String("x")
    i0 = z3.Int("include")
    inP = lambda: bz(ip.exists(Pk, Pk.e == x))
    inX = lambda: bz(ip.exists(Xk, Xk.e == x))
    inG = lambda: bz(ip.exists(Gs, Gs.e == x))
    inE = lambda: bz(ip.exists(Es, Es.e == x))

    def subst(g, q, x=x):
        """the predicate g over the element of q, of x"""
        if isinstance(g, bool):
            return g
        g = bz(g)
        pairs = [(q.e, x)]
        for b, w, p, q2 in list(ip.exs.values()):
            if occurs(g, b) and occurs(p, q.e) and q2 is not q:
                pairs.append((b, bz(ip.exists(q2, z3.substitute(bz(p), (q.e, x))))))
        return z3.substitute(g, *pairs)

    def guarded(v):
        """a value as alternatives"""
        return v.alts if isinstance(v, SUnion) else ((True, v),)

    def name_of(s, v, groups):
        if not groups:
            return strz(v)
        return strz(ip.get(s, v).attrs["name"])

    def member(s, items, groups=False, count=False, include=False):
        """(member x, no second time x)"""
        alts, dup = [], []
        for it in items:
            if isinstance(it, Star):
                q = it.seq
                if q not in (Pk, Xk, Gs, Es):
                    raise Unsupported("another list")
                e = it.elem
                if strz(ip.get(s, e).attrs["name"] if groups else e).sexpr() != q.e.sexpr():
                    raise Unsupported("changed elements")
                g = And(it.g, bz(ip.exists(q, q.e == x)), subst(it.filt, q))
                if include:
                    g = And(g, iz(ip.get(s, e).attrs["include"]) == i0) if False else And(g, subst(iz(ip.get(s, e).attrs["include"]) == i0, q))
                alts.append(g)
            else:
                for ga, v in guarded(it.v):
                    g = And(it.g, ga, name_of(s, v, groups) == x)
                    if include:
                        g = And(g, iz(ip.get(s, v).attrs["include"]) == i0)
                    alts.append(g)
        for a in range(len(alts)):
            for b in range(a):
                dup.append(And(alts[a], alts[b]))
        return bz(Or(*alts)), bz(Or(*dup))
    def apart(a, names):
        """the states in which each of these attributes is one list"""
        out = [a]
        for n in names:
            nxt = []
            for s in out:
                for g, r in guarded(ip.get(s, pk).attrs[n]):
                    s2 = s.fork(g)
                    if not s2.dead() and (g is True or ip.feasible(s2.pc)):
                        s2.heap[pk.id] = ip.get(s2, pk).set(n, r)
                        nxt.append(s2)
            out = nxt
        return out
    for a in [x for a0, _ in nr for x in apart(a0, ("packageList", "excludedList", "groupList", "excludedGroupList"))]:
        at = ip.get(a, pk).attrs
        items = {k: ip.get(a, at[k]).items for k in ("packageList", "excludedList", "groupList", "excludedGroupList")}
        for b, v in ns:
            for gk, kv in guarded(v):
                for gk2, k, name in [(And(g1, g2), k, n) for g1, k in M.expand(kv[0]) for g2, n in M.expand(kv[1])]:
                    s = joint(a, b)
                    s.assume(gk)
                    s.assume(gk2)
                    if s.dead():
                        continue
                    pc = list(s.pc)
                    inv = [z3.Not(z3.And(inP(), inX()))]
                    nz = strz(name)
                    nn = z3.Const("name of the mention", z3.StringSort())
                    pc.append(nn == nz)
                    isx = nn == x
                    T = lambda c: z3.BoolVal(bool(c))
                    eqenv = bz(ip.eq(s, env, name)) if k == "not environment" else z3.BoolVal(False)
                    p1, dp = member(a, items["packageList"])
                    x1, dx = member(a, items["excludedList"])
                    add = lambda n, g: obs.append(Ob("%s: %s" % (k, n), And(*pc, *inv, Not(g))))
                    add("selected packages", p1 == z3.Or(z3.And(T(k == "package"), isx), z3.And(inP(), z3.Not(z3.And(T(k == "not package"), isx)))))
                    add("excluded packages", x1 == z3.Or(z3.And(T(k == "not package"), isx), z3.And(inX(), z3.Not(z3.And(T(k == "package"), isx)))))
                    add("no package in both lists", z3.Not(z3.And(p1, x1)))
                    add("no package twice", z3.Not(z3.Or(dp, dx)))
                    ev = [e for e in a.trace if e[0] == "group"]
                    if (len(ev) == 1) != (k == "group") or len(ev) > 1:
                        add("a group is selected", False)
                    elif ev:
                        add("the group that is selected", ip.eq(s, ev[0][1], name))
                    # an exclusion of an environment that is not the selected one is that of a group called ^...
                    if k == "not environment":
                        (s9, other), = fn.call(ip, s, S.group_name, [name])[0]
                        exg, gone = z3.Not(eqenv), z3.And(z3.Not(eqenv), strz(other) == x)
                    else:
                        exg, gone = T(k == "not group"), z3.And(T(k == "not group"), isx)
                    g1, dg = member(a, items["groupList"], True, include=True)
                    add("selected groups", g1 == z3.And(inG(), inc(x) == i0, z3.Not(gone)))
                    e1, de = member(a, items["excludedGroupList"], True)
                    back = z3.BoolVal(False)
                    if k == "environment":          # selecting an environment takes back the exclusion of a group called ^...
                        (s9, other), = fn.call(ip, s, S.group_name, [name])[0]
                        back = strz(other) == x
                    add("excluded groups", e1 == z3.Or(gone, z3.And(inE(), z3.Not(back))))
                    want = {"environment": name}.get(k, env)
                    now = at["environment"]
                    if k == "not environment":
                        add("environment", Or(And(eqenv, ip.eq(s, now, None)), And(z3.Not(eqenv), ip.eq(s, now, env))))
                    else:
                        add("environment", ip.eq(s, now, want))
    # a witness of one membership that satisfies another is a witness of that one too
    exs = list(ip.exs.values())
    for b1, w1, p1, q1 in exs:
        for b2, w2, p2, q2 in exs:
            if q1 is q2 and b1 is not b2:
                ip.axioms.append(z3.Implies(z3.And(b1, subst(bz(p2), q2, w1)), b2))
    return fn.settle(ip, obs, rec, "line: %s" % kind)


def p_group(rec):
    """_processGroup on any text: appends a new group at the end, or nothing if the name is there"""
    from pykickstart import constants as K
    from pykickstart.options import KSOptionParser
    from pykickstart.version import DEVEL
    ip = cmds.new_ip()
    st = fn.start(ip)
    Gs = ip.seq("selected groups", ANY)
    inc = z3.Function("how much of group", z3.StringSort(), z3.IntSort())
    G = P().Group
    grp = ip.new(st, HInst(G, {"name": Gs.val, "include": SInt(inc(Gs.e))}))
    gl = ip.new(st, HList((Star(True, Gs, grp),)))
    Es = ip.seq("excluded groups", ANY)
    el = ip.new(st, HList((Star(True, Es, ip.new(st, HInst(G, {"name": Es.val, "include": 1}))),)))
    pk = ip.new(st, HInst(P().Packages, {"groupList": gl, "excludedGroupList": el}))
    text = sym_str("text", ANY)
    words = ip.seq("words of the text", PLAIN)
    items = (Star(True, words, words.val),)
    ip.sym_items = items
    ip.split_model = lambda ip, st, v: [(s, ip.new(s, HList(items))) for s in [st.fork()]] if v is text else None
    ip.models[KSOptionParser] = lambda ip, st, args, kw: [(st, KSOptionParser(*args, **kw))]
    ip.models[KSOptionParser.add_argument] = lambda ip, st, args, kw: [(st, args[0].add_argument(*args[1:], **kw))]
    op = KSOptionParser(prog="", description="", version=DEVEL)
    op.add_argument("--nodefaults", action="store_true", default=False, help="", version=DEVEL)
    op.add_argument("--optional", action="store_true", default=False, help="", version=DEVEL)
    fn.freeze(ip, st)
    real = fn.call(ip, st, P().Packages._processGroup, [pk, text])
    spec = fn.call(ip, st, S.group, [ip.lift(op), text, K.GROUP_REQUIRED, K.GROUP_ALL, K.GROUP_DEFAULT])
    obs = fn.relate(ip, ([(s, None) for s, _ in real[0]], real[1]), ([(s, None) for s, _ in spec[0]], spec[1]))
    for a, _ in real[0]:
        items = ip.get(a, ip.get(a, pk).attrs["groupList"]).items
        for b, v in spec[0]:
            s = joint(a, b)
            if s.dead():
                continue
            pc = And(*s.pc)
            nz = strz(v[0])
            there = bz(ip.exists(Gs, Gs.e == nz))
            if not (isinstance(items[0], Star) and items[0].seq is Gs and items[0].g is True and items[0].filt is True):
                raise Unsupported("the groups before")
            left = ip.get(a, ip.get(a, pk).attrs["excludedGroupList"]).items
            if len(left) != 1 or not isinstance(left[0], Star) or left[0].seq is not Es:
                raise Unsupported("the excluded groups after")
            obs.append(Ob("the group is no longer excluded, all others are", And(pc, Not(And(left[0].g, left[0].filt) if left[0].filt is True else
                                                                                       And(left[0].g, bz(left[0].filt) == (Es.e != nz))))))
            new = [i for i in items[1:]]
            if not all(isinstance(i, Item) for i in new):
                raise Unsupported("the groups after")
            obs.append(Ob("a group that is there is not added again", And(pc, there, Or(*[i.g for i in new]))))
            obs.append(Ob("a new group is added once", And(pc, Not(there), Not(z3.Sum([z3.If(bz(i.g), 1, 0) for i in new] + [z3.IntVal(0)]) == 1))))
            for i in new:
                for g, x in (i.v.alts if isinstance(i.v, SUnion) else ((True, i.v),)):
                    at = ip.get(a, x).attrs
                    obs.append(Ob("its name and options", And(pc, i.g, g, Not(And(ip.eq(s, at["name"], v[0]), ip.eq(s, at["include"], v[1]))))))
    return fn.settle(ip, obs, rec, "_processGroup")


def p_handle(rec, kind):
    """a line of the section is handed on without its comment and the blanks at its end"""
    ip = cmds.new_ip()
    st = fn.start(ip)
    pk = ip.new(st, HInst(P().Packages, {}))
    hd = ip.new(st, HInst(S.Handler, {"packages": pk}))
    sec = ip.new(st, HInst(P().PackageSection, {"handler": hd}))
    before = sym_str("before the comment", Dom(no="#", name="no comment"))
    line = SStr(before.parts + (("#",) + sym_str("comment", ANY).parts if kind == "comment" else ()))

    def add(ip, st, args, kw):
        st = st.fork()
        h = ip.get(st, args[1])
        if not isinstance(h, (HList, HIter)) or not all(isinstance(i, Item) for i in h.items):
            raise Unsupported("what is handed on")
        st.emit(("add", args[0].id == pk.id) + tuple(i.v for i in h.items))
        return [(st, None)]
    ip.models[P().Packages.add] = add
    fn.freeze(ip, st)
    nr, rr = fn.call(ip, st, P().PackageSection.handleLine, [sec, line])
    from pyvc import models as M
    wants = [before, M.str_method(ip, st, before, 'rstrip', [], {})[0][1], M.str_method(ip, st, before, 'strip', [], {})[0][1], M.str_method(ip, st, before, 'lstrip', [], {})[0][1]]
    obs = [Ob("no exception", g) for g, s, k, h in fn.exc_alts(ip, rr)]
    for s, _ in nr:
        ev = list(s.trace)
        good = len(ev) == 1 and ev[0][1] and len(ev[0]) == 3
        obs.append(Ob("handed on once", And(*s.pc, not good)))
        if good:
            # blanks at both ends make no difference to add()
            obs.append(Ob("the text handed on", And(*s.pc, *[Not(ip.eq(s, ev[0][2], w)) for w in wants])))
    return fn.settle(ip, obs, rec, "handleLine, %s" % kind)


# ------------------------------------------------------------------ native search
WORDS = ["a", "-a", "b", "-b", "@g", "-@g", "@g --nodefaults", "@g --optional", "@h", "-@h", "@g h", "-@g  h", "@ g h ", "@^e", "-@^e", "@^f", "-@^f", "  a ", "-a # x", "\t-b",
         "@^e f", "-@^e f", "a*", "-a*", "--a", "-", "@", "-@", "@g --optional --nodefaults", "--nodefaults @g", "@--optional g", "-@--optional g", "a b", "^e", "@h --other", "-@h --other",
         "A", "-A", "@G", "é", "-é", "-@^", "@^", "-@ ^e", "@^e  ", "@@g", "-@@g", "--@g", "@-g", "a#b", "-a#b"]


def selection(p):
    return {"packages": p.packageList, "excluded": p.excludedList, "groups": [(g.name, g.include) for g in p.groupList],
            "excluded groups": [g.name for g in p.excludedGroupList], "environment": p.environment}


def compare(p, s):
    got = selection(p)
    if len(set(got["packages"])) != len(got["packages"]) or len(set(got["excluded"])) != len(got["excluded"]):
        return "a package is listed twice: %s" % got
    if set(got["packages"]) != {n for n, v in s.packages.items() if v}:
        return "selected packages %s instead of %s" % (got["packages"], sorted(n for n, v in s.packages.items() if v))
    if set(got["excluded"]) != {n for n, v in s.packages.items() if not v}:
        return "excluded packages %s instead of %s" % (got["excluded"], sorted(n for n, v in s.packages.items() if not v))
    if sorted(got["groups"]) != sorted(s.groups.items()):
        return "selected groups %s instead of %s" % (got["groups"], sorted(s.groups.items()))
    if sorted(set(got["excluded groups"])) != sorted(set(s.excluded_groups)):
        return "excluded groups %s instead of %s" % (got["excluded groups"], s.excluded_groups)
    if got["environment"] != s.environment:
        return "environment %r instead of %r" % (got["environment"], s.environment)
    return None


def search(part, parts, seed, n):
    import itertools
    from pykickstart.errors import KickstartParseError
    from pykickstart.parser import KickstartParser
    from pykickstart.version import makeVersion, FC3, F7, F20, RHEL7, DEVEL
    rng = random.Random("C09 %d %d" % (part, seed))
    fixed = [list(x) for k in (1, 2) for x in itertools.product(WORDS, repeat=k)]
    core = WORDS[:19]
    fixed += [list(x) for x in itertools.product(core[:8], repeat=3)]
    hs = {v: makeVersion(v) for v in (FC3, F7, F20, RHEL7, DEVEL)}
    for k in range(part, n, parts):
        seq = fixed[k] if k < len(fixed) else [rng.choice(WORDS if rng.random() < .5 else core) for _ in range(rng.choice([3, 4, 5, 7, 10, 20]))]
        v = rng.choice(sorted(hs))
        pk = hs[v].packages = type(hs[v].packages)()
        s = S.Selection()
        sec = P().PackageSection(hs[v])
        how = rng.choice(["lines", "add", "sections"])
        want = None
        yield None
        bad = None
        try:
            for line in seq:
                s.line(line)
        except KickstartParseError:
            want = KickstartParseError
        got = None
        try:
            if how == "sections":
                ps = KickstartParser(hs[v])
                cut = rng.randrange(len(seq) + 1)
                import tempfile
                text = "%packages\n" + "\n".join(seq[:cut]) + "\n%end\n\n%packages\n" + "\n".join(seq[cut:]) + "\n%end\n"
                if v < 8000 and v != RHEL7:
                    text = text.replace("%end\n", "")
                ps.readKickstartFromString(text)
            else:
                for line in seq:
                    if how == "add":
                        pk.add([line.partition("#")[0].rstrip()])
                    else:
                        sec.handleLine(line + "\n")
        except Exception as e:                       # noqa: B902
            got = type(e)
        if got is not want:
            bad = "%s instead of %s" % (got, want)
        elif got is None:
            bad = compare(hs[v].packages, s)
        if bad:
            yield ("lines %r (%s, version %s): %s" % (seq, how, v, bad), {"lines": seq, "how": how, "version": v}, "selection")


NV = 6
PROOFS = {"handle": p_handle, "line": p_line, "group": p_group}


def tasks():
    return [("line", k) for k in LINES] + [("group",), ("handle", "comment"), ("handle", "no comment")] + [("native", i) for i in range(NV)]


def run(task, rec):
    warnings.simplefilter("ignore")
    big = os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    label = " ".join(str(x) for x in task)
    if task[0] == "native":
        fn.prove_then_search("package lines", rec, None, search(task[1], NV, seed, 200000 if big else 16000))
        rec.bounded_for.append("%s: real code against the specification run natively, %d cases" % (label, rec.bounded))
    else:
        fn.prove_then_search(label, rec, lambda r: PROOFS[task[0]](r, *task[1:]), ())


TRUSTED = ["the lists before the line are arbitrary, without duplicates, the package lists disjoint (kept by every line, proved)"]


def main():
    return runner.main("C09", tasks(), run, trusted=TRUSTED)
