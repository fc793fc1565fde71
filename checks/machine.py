"""The reading machine (C06, C07, C08): the loops of the parser against ksspec.machine, one iteration at a time."""
import shlex
import warnings

import z3

from pyvc import cmds, fn
from pyvc import interp as I
from pyvc.cut import Cut
from pyvc.values import *          # noqa: F401,F403
from pyvc.compare import Ob, joint
from ksspec import machine as S

MODULES = ("pykickstart.parser",)
REST = Dom(name="rest")
BLANK = Dom(ws=True, name="blank")
BLANK1 = Dom(ws=True, nonempty=True, name="blank1")


class Odd(Exception):
    """a kind of failure that no code knows"""


def P():
    import pykickstart.parser as M
    return M


# ------------------------------------------------------------------ lines
def line_of(kind):
    ws, ws1, rest = sym_str("indent", BLANK).parts, sym_str("blank", BLANK1).parts, sym_str("rest", REST).parts
    other = sym_str("first", Dom(no=WS + "#%", one=True, name="first")).parts
    return {
        "stop": None,
        "end": "",
        "blank": SStr(ws1),
        "comment": SStr(ws + ("#",) + rest),
        "platform": SStr(("#platform=",) + rest),
        "unindented comment": SStr(("#",) + rest),
        "percent": SStr(("%",) + rest),
        "indented percent": SStr(ws + ("%",) + rest),
        "text": SStr(ws + other + rest),
    }[kind]


KINDS = ("stop", "end", "blank", "comment", "platform", "unindented comment", "percent", "indented percent", "text")


class Snap(tuple):
    """a snapshot of the items of a list"""


def snap(ip, st, v):
    if isinstance(v, SUnion):
        return v
    if isinstance(v, Ref):
        h = ip.get(st, v)
        if isinstance(h, (HList,)):
            return Snap(h.items)
        return h.cls.__name__ if isinstance(h, HInst) else repr(h)
    if isinstance(v, tuple):
        return Snap(Item(True, x) for x in v)
    return v


def same_val(ip, st, a, b):
    if isinstance(a, Snap) and isinstance(b, Snap):
        return ip.items_eq(st, list(a), list(b))
    if isinstance(a, Snap) != isinstance(b, Snap):
        return False
    return ip.eq(st, a, b)


class World:
    """the parser object in an arbitrary state, and the ghost objects around it"""
    def __init__(self, state, line):
        self.ip = ip = cmds.new_ip()
        self.st = st = fn.start(ip)
        self.line = line
        M = P()
        ip.trace_warn = True
        self.tags = tags = ip.seq("tags", Dom(no=WS + "\"'\\#", nonempty=True, name="tag"))
        e = tags.e
        tags.facts.append(z3.PrefixOf(z3.StringVal("%"), e))
        for w in ("%end", "%include", "%ksappend", "%"):
            tags.facts.append(e != z3.StringVal(w))
        for n, d in (("indent", BLANK), ("blank", BLANK1)):
            for c in "#%":
                st.assume(z3.Not(z3.Contains(rope_z(sym_str(n, d)), z3.StringVal(c))))
        D = z3.Int("depth")
        st.assume(D >= 0)
        if state == "section":
            s = SStr(("%",) + sym_str("tag", Dom(no=WS + "\"'\\#", name="tagrest")).parts)
            st.assume(ip.exists(tags, bz(ip.eq(st, s, tags.val))))
            st.assume(D > 0)
        else:
            s = state
        mk = lambda cls, **a: ip.new(st, HInst(cls, a))
        B = lambda n: SBool(z3.Bool(n))
        self.it = mk(S.Stream, pos=SInt(z3.Int("pos0")), taken=False)
        st.assume(z3.Int("pos0") >= 0)
        self.tagobj = mk(S.Tags, extra=None)
        self.section = mk(S.Section, allLines=B("allLines"), sectionOpen=sym_str("sectionOpen"))
        self.handler = mk(S.Handler, version=SInt(z3.Int("version")), platform=sym_str("platform0"), currentLine=sym_str("currentLine0"))
        self.p = mk(M.KickstartParser, errorsAreFatal=B("errorsAreFatal"), errorsCount=SInt(z3.Int("errorsCount")),
                    followIncludes=B("followIncludes"), handler=self.handler, missingIncludeIsFatal=B("missingIncludeIsFatal"),
                    unknownSectionIsFatal=B("unknownSectionIsFatal"), _state=s, _includeDepth=SInt(D), _line=sym_str("oldline"),
                    version=SInt(z3.Int("version")), _sections=self.tagobj)
        fn.freeze(ip, st)
        self.install()

    def outcome(self, ip, st, what):
        """ok, or one of three kinds of failures: a kickstart error, a well-known one, and one no code knows"""
        k = z3.Int("%s!%d" % (what, sum(1 for e in st.trace if e[0] == what)))
        from pykickstart.errors import KickstartParseError
        a, b = ip.branch(st, k == 1)
        if a is not None:
            ip.raise_new(a, KickstartParseError, "failed", lineno=SInt(z3.Int("lineno of the failure")))
        if b is None:
            return None
        for n, exc in ((2, ValueError), (3, Odd)):
            a, b = ip.branch(b, k == n)
            if a is not None:
                ip.raise_new(a, exc, "")
            if b is None:
                return None
        return b

    def event(self, what, fails, *pick):
        def model(ip, st, args, kw):
            st = st.fork()
            vals = [args[i] if isinstance(i, int) and i < len(args) else kw.get(i) if isinstance(i, str) else None for i in pick]
            vals = [snap(ip, st, v) for v in vals]
            if what == "dispatch":
                vals.append(ip.get(st, self.handler).attrs.get("currentLine"))
            st.emit((what,) + tuple(vals))
            if fails:
                st = self.outcome(ip, st, what)
            return [(st, None)] if st is not None else []
        return model

    def install(self):
        ip, M = self.ip, P()
        w = self

        def nxt(ip, st, args, kw):
            h = ip.get(st, args[0])
            if h.attrs["taken"] is not False:
                raise Unsupported("more than one line in an iteration")
            if w.line is None:
                ip.raise_new(st, StopIteration)
                return []
            st = st.fork()
            h = h.set("taken", True)
            if w.line != "":
                h = h.set("pos", mk_int(z3.simplify(iz(h.attrs["pos"]) + 1)))
            ip.put(st, args[0], h)
            return [(st, w.line)]

        def put(ip, st, args, kw):
            st = st.fork()
            h = ip.get(st, args[0])
            ip.put(st, args[0], h.set("pos", mk_int(z3.simplify(iz(h.attrs["pos"]) - 1))))
            st.emit(("put back", args[1]))
            return [(st, None)]
        ip.models[S.Stream.__next__] = nxt
        ip.models[S.Stream.put] = put

        def known(ip, st, tag):
            extra = ip.get(st, w.tagobj).attrs["extra"]
            g = ip.exists(w.tags, bz(ip.eq(st, tag, w.tags.val))) if is_str(tag) else False
            return Or(g, ip.eq(st, tag, extra) if extra is not None else False)

        def contains(ip, st, args, kw):
            return [(st, mk_bool(known(ip, st, args[1])))]

        def getitem(ip, st, args, kw):
            a, b = ip.branch(st, known(ip, st, args[1]))
            if b is not None:
                ip.raise_new(b, KeyError, "no such section")
            if a is None:
                return []
            a = a.fork()
            a.emit(("section", args[1]))
            return [(a, w.section)]

        def get(ip, st, args, kw):
            a, b = ip.branch(st, known(ip, st, args[1]))
            out = []
            if b is not None:
                out.append((b, args[2] if len(args) > 2 else None))
            if a is not None:
                a = a.fork()
                a.emit(("section", args[1]))
                out.append((a, w.section))
            return out

        def keys(ip, st, args, kw):
            if ip.get(st, w.tagobj).attrs["extra"] is not None:
                raise Unsupported("all sections after a registration")
            st = st.fork()
            return [(st, ip.new(st, HList((Star(True, w.tags, w.tags.val),))))]

        def setitem(ip, st, args, kw):
            st = st.fork()
            h = ip.get(st, args[2])
            st.emit(("register", h.cls.__name__, args[1]))
            ip.put(st, w.tagobj, ip.get(st, w.tagobj).set("extra", args[1]))
            return [(st, None)]

        def reg_ignored(ip, st, args, kw):
            st = st.fork()
            st.emit(("register", "NullSection", args[1]))
            ip.put(st, w.tagobj, ip.get(st, w.tagobj).set("extra", args[1]))
            return [(st, None)]
        T = S.Tags
        ip.models.update({T.__contains__: contains, T.__getitem__: getitem, T.get: get, T.keys: keys, T.__iter__: keys, T.__setitem__: setitem,
                          S.register_ignored: reg_ignored})
        ip.models[S.Handler.dispatcher] = self.event("dispatch", True, 1, 2)
        ip.models[S.Section.handleHeader] = self.event("header", True, 1, 2)
        ip.models[S.Section.handleLine] = self.event("line", True, 1)
        ip.models[S.Section.finalize] = self.event("finalize", True)
        ip.models[S.report] = self.event("report", False)
        ip.models[print] = self.event("report", False)

        def warn(ip, st, args, kw):
            from pyvc.models import category
            st = st.fork()
            st.emit(("warn", category(ip, args, kw)))
            return [(st, None)]

        def warn_spec(ip, st, args, kw):
            st = st.fork()
            st.emit(("warn", "KickstartParseWarning"))
            return [(st, None)]
        ip.models[warnings.warn] = warn
        ip.models[S.warn_unknown] = warn_spec
        # plain words: a section tag is the same word for a shell and for split()
        ip.plain_words = (lambda word: And(Or(known(ip, w.st, word), ip.eq(w.st, word, "%end"), ip.eq(w.st, word, "%include"), ip.eq(w.st, word, "%ksappend"))),)

    def contract_read(self):
        w = self

        def readSection(ip, st, args, kw):
            st = st.fork()
            h = ip.get(st, w.it)
            lineno = args[2] if len(args) > 2 else kw.get("lineno")
            st.emit(("read section", args[1].id == w.it.id, lineno, h.attrs["pos"], ip.get(st, w.p).attrs["_state"]))
            st = self.outcome(ip, st, "read section")
            if st is None:
                return []
            st = st.fork()
            d = iz(ip.get(st, w.p).attrs["_includeDepth"])
            self.havoc_state(ip, st, And(z3.Bool("section left open"), d > 0))
            n = z3.Int("lines after the section")
            ip.put(st, w.it, ip.get(st, w.it).set("pos", SInt(n)))
            return [(st, SInt(n))]
        self.ip.models[P().KickstartParser._readSection] = readSection

    def contract_include(self):
        w = self

        def include(ip, st, args, kw):
            st = st.fork()
            st.emit(("include", args[1], ip.get(st, w.p).attrs["_includeDepth"]))
            st = self.outcome(ip, st, "include")
            if st is None:
                return []
            st = st.fork()
            self.havoc_state(ip, st, z3.Bool("still in the section"))
            p = ip.get(st, w.p)
            ip.put(st, w.p, p.set("errorsCount", mk_int(iz(p.attrs["errorsCount"]) + z3.Int("errors in the included file"))).set("_line", sym_str("last line of the included file")))
            return [(st, None)]
        self.ip.models[P().KickstartParser._handleInclude] = include

    def havoc_state(self, ip, st, keep):
        """the state afterwards is the same or that of the command section"""
        p = ip.get(st, self.p)
        old = p.attrs["_state"]
        ip.put(st, self.p, p.set("_state", merge_val(keep, old, "commands") if is_str(old) and old not in ("commands",) else old))

    VIEW = ("_state", "_includeDepth", "errorsCount")

    def view(self, st, kind):
        if kind.startswith("raises"):
            return [("errorsCount", self.ip.get(st, self.p).attrs.get("errorsCount", ABSENT))]
        p = self.ip.get(st, self.p).attrs
        h = self.ip.get(st, self.handler).attrs
        v = [(k, p.get(k, ABSENT)) for k in self.VIEW]
        return v + [("platform", h.get("platform")), ("position", self.ip.get(st, self.it).attrs["pos"])]


def expand(v):
    if isinstance(v, str):
        return [(True, v)]
    if isinstance(v, SUnion):
        return [(And(g, g2), y) for g, x in v.alts for g2, y in expand(x)]
    return fn.expand(v)


def ends(w, backs, normal, raises, spec=False):
    """-> [(kind, state, value)]"""
    ip = w.ip
    out = []
    if spec:
        for s, v in normal:
            for g, t in (v.alts if isinstance(v, SUnion) else ((True, v),)):
                for g2, k in expand(t[0]):
                    s2 = s.fork(And(g, g2))
                    if not s2.dead():
                        out.append((k, s2, t[1]))
    else:
        out += [("next", s, None) for s in backs]
        out += [("stop", s, v) for s, v in normal]
    for g, s, k, h in fn.exc_alts(ip, raises):
        s2 = s.fork(g)
        if not s2.dead():
            out.append(("raises " + k.__name__, s2, h.attrs.get("lineno") if h is not None and k.__name__.startswith("Kickstart") else None))
    return out


def relate(w, real, spec):
    ip = w.ip
    obs = []
    kinds = sorted({k for k, _, _ in real} | {k for k, _, _ in spec})
    for k in kinds:
        a = Or(*[And(*s.pc) for x, s, _ in real if x == k])
        b = Or(*[And(*s.pc) for x, s, _ in spec if x == k])
        obs.append(Ob("%s exactly when specified" % k, Or(And(a, Not(b)), And(b, Not(a)))))
    for k, a, va in real:
        for k2, b, vb in spec:
            if k != k2:
                continue
            st = joint(a, b)
            if st.dead():
                continue
            pc = list(st.pc)
            obs.append(Ob("%s: result" % k, And(*pc, Not(same_val(ip, st, snap(ip, a, va), snap(ip, b, vb))))))
            ta, tb = [e[0] for e in a.trace], [e[0] for e in b.trace]
            if [x for x in ta if x != "section"] != [x for x in tb if x != "section"]:
                obs.append(Ob("%s: what happens (%s instead of %s)" % (k, ", ".join(ta), ", ".join(tb)), And(*pc)))
                continue
            ea, eb = [e for e in a.trace if e[0] != "section"], [e for e in b.trace if e[0] != "section"]
            sa, sb = [e for e in a.trace if e[0] == "section"], [e for e in b.trace if e[0] == "section"]
            if "header" in ta and sa and sb:
                obs.append(Ob("%s: the section that is read" % k, And(*pc, Not(ip.eq(st, sa[-1][1], sb[-1][1])))))
            for x, y in zip(ea, eb):
                g = And(*[same_val(ip, st, u, v) for u, v in zip(x[1:], y[1:])]) if len(x) == len(y) else False
                obs.append(Ob("%s: %s" % (k, x[0]), And(*pc, Not(g))))
            for (n, u), (_, v) in zip(w.view(a, k), w.view(b, k)):
                obs.append(Ob("%s: %s" % (k, n), And(*pc, Not(ip.eq(st, u, v)))))
    return obs


def p_commands(rec, state, kind):
    w = World(state, line_of(kind))
    w.contract_read()
    w.contract_include()
    ip = w.ip
    if kind == "unindented comment":
        w.st.assume(z3.Not(z3.PrefixOf(z3.StringVal("platform="), rope_z(sym_str("rest", REST)))))
    # the machine starts at the beginning of a file
    w.st.assume(z3.Int("pos0") == 0)
    ip.base[w.it.id] = ip.base[w.it.id].set("pos", 0)
    cut = Cut(ip, w.it, MODULES)
    nr, rr = fn.call(ip, w.st, P().KickstartParser._stateMachine, [w.p, w.it])
    if cut.loops != 1:
        raise Unsupported("the loop over the lines was not found")
    real = ends(w, cut.backs, nr, rr)
    # the specification starts from the same head
    st = w.st.fork()
    st.assume(z3.Int("position") >= 0)
    ip.put(st, w.it, ip.get(st, w.it).set("pos", SInt(z3.Int("position"))))
    ns, rs = fn.call(ip, st, S.commands_step, [w.p, w.it])
    spec = ends(w, [], ns, rs, True)
    return fn.settle(ip, cut.obs + relate(w, real, spec), rec, "%s line, state %s" % (kind, state))


def p_section(rec, kind):
    """the loop of _readSection, from the state of a section being read"""
    w = World("section", line_of(kind))
    w.contract_include()
    ip = w.ip
    # any depth
    w.st.pc = tuple(g for g in w.st.pc if isinstance(g, bool) or not g.eq(norm(z3.Int("depth") > 0)))
    cut = Cut(ip, w.it, MODULES)
    nr, rr = fn.call(ip, w.st, P().KickstartParser._readSection, [w.p, w.it, SInt(z3.Int("pos0"))])
    if cut.loops != 1:
        raise Unsupported("the loop over the lines was not found")
    real = ends(w, cut.backs, nr, rr)
    st = w.st.fork()
    st.assume(z3.Int("position") >= z3.Int("pos0"))
    ip.put(st, w.it, ip.get(st, w.it).set("pos", SInt(z3.Int("position"))))
    ns, rs = fn.call(ip, st, S.section_step, [w.p, w.section, w.it])
    spec = ends(w, [], ns, rs, True)
    return fn.settle(ip, cut.obs + relate(w, real, spec), rec, "%s line in a section" % kind)


def compare(w, real, spec, rec, label):
    return fn.settle(w.ip, relate(w, ends(w, [], *real), [(k, s, v) for k, s, v in ends(w, [], *spec)]), rec, label)


def p_include(rec, state):
    w = World(state, None)
    ip = w.ip
    from pykickstart.errors import KickstartError

    def read(ip, st, args, kw):
        st = st.fork()
        p = ip.get(st, w.p)
        st.emit(("read file", args[1], args[2] if len(args) > 2 else kw.get("reset", True), p.attrs["_includeDepth"]))
        opened = SStr(("%",) + sym_str("opened", Dom(no=WS + "\"'\\#", name="tagrest")).parts)
        after = merge_val(z3.Bool("a section stays open"), opened, merge_val(z3.Bool("still in the section"), p.attrs["_state"], "commands"))
        ip.put(st, w.p, p.set("_state", after).set("errorsCount", mk_int(iz(p.attrs["errorsCount"]) + z3.Int("errors in the included file"))))
        k = z3.Int("reading")
        for n, exc in ((1, KickstartError), (2, ValueError)):
            a, st = ip.branch(st, k == n)
            if a is not None:
                ip.raise_new(a, exc, "failed")
            if st is None:
                return []
        return [(st, None)]
    ip.models[P().KickstartParser.readKickstart] = read
    f = sym_str("file")
    return compare(w, fn.call(ip, w.st, P().KickstartParser._handleInclude, [w.p, f]), fn.call(ip, w.st, S.handleInclude, [w.p, f]), rec, "_handleInclude, state %s" % state)


def strfun(ip, name, args):
    SS = z3.StringSort()
    f = z3.Function(name, *([SS] * (len(args) + 1)))
    return SStr((Atom(f(*[rope_z(as_rope(a)) for a in args]), ANY),))


def p_readfile(rec, depth, reset):
    """(bounded in the nesting depth: 0, 1 and 2; all names, directories and load outcomes)"""
    import os
    w = World("commands", None)
    ip = w.ip
    from pykickstart.errors import KickstartError
    st = w.st
    known = {}
    for d in range(depth + 1):
        known[d] = merge_val(z3.Bool("directory of depth %d known" % d), sym_str("dir%d" % d), ABSENT)
    dirs = ip.new(st, HDict(known))
    ip.base[dirs.id] = st.heap.pop(dirs.id)
    ip.base[w.p.id] = ip.base[w.p.id].set("currentdir", dirs).set("_includeDepth", depth)
    exists = lambda ip, st, args, kw: [(st, mk_bool(z3.Function("exists", z3.StringSort(), z3.BoolSort())(rope_z(as_rope(args[0])))))]

    def lib(name):
        return lambda ip, st, args, kw: [(st, strfun(ip, name, args))]

    def load(ip, st, args, kw):
        st = st.fork()
        st.emit(("load", args[0]))
        k = z3.Int("loading")
        for n, exc in ((1, KickstartError), (2, OSError)):
            a, st = ip.branch(st, k == n)
            if a is not None:
                ip.raise_new(a, exc, "failed", **({"value": "failed", "message": "failed", "lineno": None} if exc is KickstartError else {}))
            if st is None:
                return []
        return [(st, strfun(ip, "contents", args[:1]))]
    names = ("exists", "join", "dirname", "abspath")
    reals = (os.path.exists, os.path.join, os.path.dirname, os.path.abspath)

    def x_exists(f): pass
    def x_join(a, b): pass
    def x_dirname(f): pass
    def x_abspath(f): pass
    def x_load(f): pass
    for n, r, x in zip(names, reals, (x_exists, x_join, x_dirname, x_abspath)):
        m = exists if n == "exists" else lib(n)
        ip.models[r] = m
        ip.models[x] = m
    ip.assumed.add("os.path.exists/join/dirname/abspath are functions of their arguments while a file is opened")
    ip.models[P().load_to_str] = load
    ip.models[x_load] = load
    ip.pure_modules = ()

    def text(ip, st, args, kw):
        st = st.fork()
        st.emit(("read text", args[1], args[2] if len(args) > 2 else kw.get("reset", True)))
        st = self_outcome(w, ip, st)
        return [(st, None)] if st is not None else []
    ip.models[P().KickstartParser.readKickstartFromString] = text
    f = sym_str("file")
    base_view = w.view

    def view(st, kind):
        v = base_view(st, kind)
        if not kind.startswith("raises"):
            d = ip.get(st, ip.get(st, w.p).attrs["currentdir"]).d
            v += [("directory of depth %d" % i, d.get(i, ABSENT)) for i in range(4)]
        return v
    w.view = view
    real = fn.call(ip, st, P().KickstartParser.readKickstart, [w.p, f], {"reset": reset})
    spec = fn.call(ip, st, S.readKickstart, [w.p, f, reset, x_exists, x_join, x_dirname, x_abspath, x_load])
    return compare(w, real, spec, rec, "readKickstart at depth %d, reset=%s" % (depth, reset))


def self_outcome(w, ip, st):
    return w.outcome(ip, st, "read text")


def p_text(rec, reset):
    """the machine is run once, over the lines of the text with their line ends followed by the end mark"""
    w = World("section", None)
    ip = w.ip
    seen = []

    def machine(ip, st, args, kw):
        it = args[1]
        h = ip.get(st, it)
        if isinstance(h, HInst):
            cands = [v for k, v in h.attrs.items() if isinstance(v, Ref) and isinstance(ip.get(st, v), (HIter, HList))]
            if len(cands) != 1:
                raise Unsupported("the lines inside %s" % h.cls.__name__)
            others = [v for v in h.attrs.values() if not isinstance(v, Ref) and v is not None]
            if others:
                raise Unsupported("the state of the line iterator")
            h = ip.get(st, cands[0])
        st = st.fork()
        st.emit(("read lines", Snap(h.items), ip.get(st, w.p).attrs["_state"], ip.get(st, w.p).attrs["_includeDepth"]))
        return [(st, None)]
    ip.models[P().KickstartParser._stateMachine] = machine

    def run(ip, st, args, kw):
        return machine(ip, st, [None, args[1]], {})

    def x_machine(p, lines): pass
    ip.models[x_machine] = run
    t = sym_str("text")
    real = fn.call(ip, w.st, P().KickstartParser.readKickstartFromString, [w.p, t], {"reset": reset})
    spec = fn.call(ip, w.st, S.readText, [w.p, t, reset, x_machine])
    return compare(w, real, spec, rec, "readKickstartFromString, reset=%s" % reset)


def p_putback(rec):
    """PutBackIterator against a plain list: every sequence of up to five next/put steps, all line contents"""
    import itertools
    ip0 = None
    failed = []
    for n in range(1, 6):
        for ops in itertools.product("np", repeat=n):
            s = "".join(ops)
            if s[0] == "p" or "pp" in s or s[-1] == "p":
                continue            # put is only used right after a line was taken
            ip = cmds.new_ip()
            st = fn.start(ip)
            ls = [sym_str("line%d" % i, Dom(nonempty=True, name="line")) for i in range(3)]
            lst = ip.new_list(st, ls)
            ip.coll.append([])
            try:
                res = ip.call(st, P().PutBackIterator, [lst], {})
                states = [(s1, it, list(ls), None, []) for s1, it in res]
                k = 0
                for o in ops:
                    nxt = []
                    for s1, it, rest, buf, got in states:
                        if o == "p":
                            x = sym_str("back%d" % k, Dom(nonempty=True, name="line"))
                            k += 1
                            m = ip.getattr_(s1, it, "put")
                            for s2, f in m:
                                for s3, _ in ip.call(s2, f, [x], {}):
                                    nxt.append((s3, it, rest, x, got))
                        else:
                            if buf is None and not rest:
                                continue
                            want = buf if buf is not None else rest[0]
                            r2 = rest if buf is not None else rest[1:]
                            for s2, v in ip.call(s1, next, [it], {}):
                                nxt.append((s2, it, r2, None, got + [(want, v)]))
                    states = nxt
            finally:
                raises = ip.coll.pop()
            obs = []
            for s1, it, rest, buf, got in states:
                for want, v in got:
                    obs.append(Ob("the line put back comes next, the others in order", And(*s1.pc, Not(ip.eq(s1, want, v)))))
            for s1, e in raises:
                if ip.exc_class(s1, e) is not StopIteration or len([o for o in ops if o == "n"]) - len([o for o in ops if o == "p"]) <= 3:
                    obs.append(Ob("no failure while lines are left", And(*s1.pc)))
            failed += fn.settle(ip, obs, rec, "PutBackIterator %s" % s)
    return failed


class GCommand:
    def parse(self, args):
        raise NotImplementedError

    def dataList(self):
        raise NotImplementedError


def p_dispatch(rec):
    from pykickstart import base as B
    ip = cmds.new_ip()
    st = fn.start(ip)
    a, b = (ip.new(st, HInst(GCommand, {"currentCmd": "", "currentLine": "", "lineno": 0, "seen": SBool(z3.Bool("seen%d" % i))})) for i in (1, 2))
    hd = ip.new(st, HInst(B.KickstartHandler, {"commands": ip.new(st, HDict({"one": a, "two": b, "alias": a, "masked": None})), "currentLine": sym_str("line")}))
    lst = ip.new(st, HList((Star(True, ip.seq("files", ANY), ip.seq("files", ANY).val),)))

    class D(B.BaseData):
        pass
    data = ip.new(st, HInst(D, {"lineno": 0}))
    words = ip.seq("words", ANY)
    args = ip.new(st, HList((Item(True, sym_str("name")), Star(True, words, words.val))))
    fn.freeze(ip, st)
    view_attrs = ("currentCmd", "currentLine", "lineno", "seen")

    def which(ref):
        return "a" if ref.id == a.id else "b"

    def parse(ip, st, args_, kw):
        st = st.fork()
        at = ip.get(st, args_[0]).attrs
        st.emit(("parse", which(args_[0]), snap(ip, st, args_[1])) + tuple(at.get(k, ABSENT) for k in view_attrs))
        k = z3.Int("parse outcome")
        from pykickstart.errors import KickstartParseError
        for n, exc in ((1, KickstartParseError), (2, ValueError)):
            x, st = ip.branch(st, k == n)
            if x is not None:
                ip.raise_new(x, exc, "failed")
            if st is None:
                return []
        r = z3.Int("parse result")
        x, y = ip.branch(st, r == 0)
        z, u = ip.branch(y, r == 1)
        return [(x, data), (z, args_[0]), (u, None)]

    def datalist(ip, st, args_, kw):
        k = z3.Bool("has a list")
        x, y = ip.branch(st, k)
        return [(x, lst), (y, None)]
    ip.models[GCommand.parse] = parse
    ip.models[GCommand.dataList] = datalist
    # no loops here
    lineno = SInt(z3.Int("lineno"))

    class V(World):
        def __init__(self):
            self.ip = ip

        def view(self, st, kind):
            out = []
            for n, r in (("a", a), ("b", b)):
                at = ip.get(st, r).attrs
                out += [("%s of command %s" % (k, n), at.get(k, ABSENT)) for k in view_attrs]
            its = ip.get(st, lst).items
            new = [x for x in its if isinstance(x, Item)]
            if not isinstance(its[0], Star) or len(its) != len(new) + 1:
                raise Unsupported("the list of filed data")

            def count(is_data):
                n = z3.IntVal(0)
                for x in new:
                    for g, v in (x.v.alts if isinstance(x.v, SUnion) else ((True, x.v),)):
                        if (isinstance(v, Ref) and v.id == data.id) == is_data:
                            n = n + z3.If(bz(And(x.g, g)), 1, 0)
                return mk_int(z3.simplify(n))
            return out + [("filed data", count(True)), ("other filed objects", count(False))]
    w = V()

    def isdata(ip, st, args_, kw):
        return ip.each(st, args_[0], lambda s, v: [(s, isinstance(v, Ref) and v.id == data.id)])

    def x_isdata(r): pass
    ip.models[x_isdata] = isdata
    real = fn.call(ip, st, B.KickstartHandler.dispatcher, [hd, args, lineno])
    spec = fn.call(ip, st, S.dispatch, [hd, args, lineno, x_isdata])

    def named(res):
        return [(s, {data.id: "data", a.id: "command a", b.id: "command b"}.get(v.id) if isinstance(v, Ref) else v) for s, v in split_unions(res)], None
    return compare(w, (named(real[0])[0], real[1]), (named(spec[0])[0], spec[1]), rec, "dispatcher")


def split_unions(res):
    out = []
    for s, v in res:
        for g, x in (v.alts if isinstance(v, SUnion) else ((True, v),)):
            s2 = s.fork(g)
            if not s2.dead():
                out.append((s2, x))
    return out


def Opq(v):
    return "object %d" % v.id if isinstance(v, Ref) else v


SCRIPTS = ("PreScriptSection", "PreInstallScriptSection", "PostScriptSection", "OnErrorScriptSection", "TracebackScriptSection")


def p_script(rec, name):
    """a script section collects its lines unchanged and hands over one script made of all of them"""
    from pykickstart import sections as Z
    h = cmds.real_handler(34000)
    sec = getattr(Z, name)(h, dataObj=P().Script)
    failed = []

    def setup():
        ip = cmds.new_ip()
        st = fn.start(ip)
        ref = ip.lift(sec)
        hs = ip.get(st, ref)
        d = hs.attrs.get("_script")
        if not (isinstance(d, Ref) and isinstance(ip.get(st, d), HDict) and isinstance(ip.get(st, d).d.get("body"), Ref)):
            raise Unsupported("the lines collected by %s" % name)
        lines = ip.seq("lines", ANY)
        # the option parser is built by running the real code; it does not depend on the input
        op = sec._getParser()
        ip.models[type(sec)._getParser] = lambda ip_, s, a, k: [(s, ip.lift(op))]
        body = ip.get(st, d).d["body"]
        ip.base[body.id] = HList((Star(True, lines, lines.val),))
        dd = dict(ip.get(st, d).d, interp=sym_str("interp"), log=merge_val(z3.Bool("log given"), sym_str("log"), None),
                  errorOnFail=SBool(z3.Bool("errorOnFail")), lineno=SInt(z3.Int("lineno")), chroot=SBool(z3.Bool("chroot")))
        ip.base[d.id] = HDict(dd)
        return ip, st, ref, d, body, dd
    ip, st, ref, d, body, dd = setup()
    x = sym_str("line")
    nr, rr = fn.call(ip, st, I.Bound(type(sec).handleLine, ref), [x])
    obs = [Ob("taking a line never fails", Or(*[And(*s.pc) for s, _ in rr]))]
    for s, _ in nr:
        now = ip.get(s, ip.get(s, d).d["body"]).items
        obs.append(Ob("a line is added at the end, unchanged", And(*s.pc, Not(ip.items_eq(s, list(now), list(ip.base[body.id].items) + [Item(True, x)])))))
        for k, v in dd.items():
            if k != "body":
                obs.append(Ob("a line leaves %s alone" % k, And(*s.pc, Not(ip.eq(s, ip.get(s, d).d[k], v)))))
    failed += fn.settle(ip, obs, rec, "%s.handleLine" % name)
    ip, st, ref, d, body, dd = setup()
    hd = ip.get(st, ip.lift(h)).attrs["scripts"]
    old = ip.seq("scripts", ANY)
    ip.base[hd.id] = HList((Star(True, old, old.val),))
    real = fn.call(ip, st, I.Bound(type(sec).finalize, ref), [])
    sd = ip.new(st, HDict({k: v for k, v in dd.items() if k != "body"}))
    spec = fn.call(ip, st, S.script_of, [body, sd])
    obs = [Ob("finishing never fails", Or(*[And(*s.pc) for s, _ in real[1]]))]
    attrs = ("script", "interp", "inChroot", "lineno", "logfile", "errorOnFail", "type")
    for s, _ in real[0]:
        its = ip.get(s, hd).items
        new = [i for i in its[1:]]
        if not isinstance(its[0], Star) or any(isinstance(i, Star) for i in new) or len(new) > 1:
            raise Unsupported("the scripts of the handler")
        g = new[0].g if new else False
        for s2, v in split_unions(spec[0]):
            j = joint(s, s2)
            if j.dead():
                continue
            if v is None:
                obs.append(Ob("a blank script is left out", And(*j.pc, g)))
                continue
            obs.append(Ob("a script is handed over", And(*j.pc, Not(g))))
            if new:
                sc = ip.get(s, new[0].v)
                want = ip.get(s2, v).d
                for a in attrs:
                    obs.append(Ob("the script's %s" % a, And(*j.pc, g, Not(ip.eq(j, sc.attrs.get(a, ABSENT), want[a])))))
    failed += fn.settle(ip, obs, rec, "%s.finalize" % name)
    # the next header starts from nothing
    ip, st, ref, d, body, dd = setup()
    from ksspec import constants as C
    args = ip.new_list(st, [sec.sectionOpen])
    nr, rr = fn.call(ip, st, I.Bound(type(sec).handleHeader, ref), [SInt(z3.Int("line of the header")), args])
    obs = [Ob("a plain header never fails", Or(*[And(*s.pc) for s, _ in rr]))]
    want = {"interp": "/bin/sh", "log": None, "errorOnFail": False, "chroot": name == "PostScriptSection", "lineno": SInt(z3.Int("line of the header"))}
    for s, _ in nr:
        now = ip.get(s, ip.get(s, ref).attrs["_script"]).d
        obs.append(Ob("a header starts an empty body", And(*s.pc, ip.items_nonempty(ip.get(s, now["body"]).items))))
        for k, v in want.items():
            obs.append(Ob("a plain header sets %s" % k, And(*s.pc, Not(ip.eq(s, now[k], v)))))
    failed += fn.settle(ip, obs, rec, "%s.handleHeader" % name)
    return failed


def p_null(rec, shape):
    """an ignored section keeps its lines unchanged and in order, and only its own"""
    from checks import c10
    return c10.p_null(rec, shape)


# ------------------------------------------------------------------ tasks
def tasks_commands():
    return [("commands", s, k) for k in KINDS for s in ("commands", "section", "end")]


def tasks_section():
    return [("section", k) for k in KINDS]


def tasks_around():
    return [("include", "commands"), ("include", "section"), ("text", True), ("text", False), ("putback",), ("dispatch",)] + \
        [("readfile", d, r) for d in (0, 1, 2) for r in (True, False)]


NATIVE = 8


def tasks_native():
    return [("native", i) for i in range(NATIVE)] + [("native scripts",), ("native dispatch",), ("native includes",), ("native again",)]


PROOFS = {"commands": p_commands, "section": p_section, "include": p_include, "text": p_text, "putback": p_putback, "dispatch": p_dispatch,
          "readfile": p_readfile, "script": p_script, "null": p_null}


def run(task, rec):
    import os
    from checks import machine_native as N
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    big = tier == "thorough"
    label = " ".join(str(x) for x in task)
    if task[0] == "native":
        fn.prove_then_search("reading files", rec, None, N.search(task[1], NATIVE, seed, 400000 if big else 24000))
    elif task[0] == "native scripts":
        fn.prove_then_search("scripts", rec, None, N.scripts(seed, 20000 if big else 1500))
    elif task[0] == "native dispatch":
        fn.prove_then_search("dispatching", rec, None, N.dispatch())
    elif task[0] == "native again":
        fn.prove_then_search("reading again", rec, None, N.again())
    elif task[0] == "native includes":
        fn.prove_then_search("included files", rec, None, N.includes())
    else:
        fn.prove_then_search(label, rec, lambda r: PROOFS[task[0]](r, *task[1:]), ())
    if task[0].startswith("native"):
        rec.bounded_for.append("%s: real code against the specification run natively, %d inputs" % (label, rec.bounded))


TRUSTED = ["ghost collaborators (ksspec.machine): the stream of lines, sections and commands do nothing but return or raise"]
