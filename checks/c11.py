"""C11: version names, numbers and handlers."""
import importlib
import os
import random
import tempfile
import warnings

import z3

from pyvc import cmds, fn, runner
from pyvc import interp as I
from pyvc.values import *          # noqa: F401,F403
from pyvc.compare import Ob
from ksspec import vspec as S


def R():
    import pykickstart.version as V
    return V


def tasks():
    return ["stringToVersion", "versionToString", "versionToLongString", "versionFromFile", "returnClassForVersion", "names", "header"]


def ipx():
    ip = cmds.new_ip()
    ip.regexes |= set(S.REGEXES)
    return ip


def p_string(rec):
    ip = ipx()
    st = fn.start(ip)
    v = sym_str("name")
    obs = fn.relate(ip, fn.call(ip, st, R().stringToVersion, [v]), fn.call(ip, st, S.stringToVersion, [v]))
    return fn.settle(ip, obs, rec, "stringToVersion")


def p_tostring(rec):
    failed = []
    for skip in (False, True):
        ip = ipx()
        st = fn.start(ip)
        v = SInt(z3.Int("number"))
        obs = fn.relate(ip, fn.call(ip, st, R().versionToString, [v, skip]), fn.call(ip, st, S.versionToString, [v, skip]))
        failed += fn.settle(ip, obs, rec, "versionToString(skipDevel=%s)" % skip)
    return failed


def p_tolong(rec):
    ip = ipx()
    st = fn.start(ip)
    v = SInt(z3.Int("number"))
    obs = fn.relate(ip, fn.call(ip, st, R().versionToLongString, [v]), fn.call(ip, st, S.versionToLongString, [v]))
    return fn.settle(ip, obs, rec, "versionToLongString")


def p_fromfile(rec):
    ip = ipx()
    st = fn.start(ip)
    text = sym_str("contents")
    bad = z3.Bool("unreadable")

    def load(ip_, s, args, kw):
        a, b = ip_.branch(s, bad)
        if a is not None:
            from pykickstart.errors import KickstartError
            ip_.raise_new(a, KickstartError, "cannot load")
        return [(b, text)] if b is not None else []
    ip.models[R().load_to_str] = load
    real = fn.call(ip, st, R().versionFromFile, [sym_str("file")])
    st2 = fn.start(ip)
    st2.assume(Not(bad))
    spec = fn.call(ip, st2, S.versionOfLines, [text])
    obs = fn.relate(ip, ([r for r in real[0]], [r for r in real[1]]), spec, classes=False)
    # the relation is meant for readable files
    for o in obs:
        o.neg = And(o.neg, Not(bad))
    for g, s, k, h in fn.exc_alts(ip, real[1]):
        if not any(c.__name__ == "KickstartError" for c in k.__mro__):
            obs.append(Ob("only kickstart errors are raised", g))
    return fn.settle(ip, obs, rec, "versionFromFile")


def p_class(rec):
    """every number and name outside the table raises a version error"""
    failed = []
    for kind in ("number", "name"):
        ip = ipx()
        st = fn.start(ip)
        n = z3.Int("number")
        from pykickstart.errors import KickstartVersionError
        st.assume(And(*[n != k for k in S.NUMBERS.values()]))

        def no_import(ip_, s, a, kw):
            if ip_.feasible(s.pc):
                raise Unsupported("import for an unsupported version")
            return []
        ip.models[importlib.import_module] = no_import
        if kind == "number":
            v = SInt(n)
        else:
            v = sym_str("name")

            def unsupported(ip_, s, a, kw):
                ip_.raise_new(s, KickstartVersionError, "unsupported")
                return []

            def to_int(ip_, s, a, kw):
                x = z3.Bool("isnumber")
                y, no = ip_.branch(s, x)
                if no is not None:
                    ip_.raise_new(no, ValueError, "int")
                return [(y, SInt(n))] if y is not None else []
            ip.models[R().stringToVersion] = unsupported
            ip.models[int] = to_int
        nr, rr = fn.call(ip, st, R().returnClassForVersion, [v])
        obs = [Ob("no handler class for an unsupported %s" % kind, Or(*[And(*s.pc) for s, _ in nr]))]
        for g, s, k, h in fn.exc_alts(ip, rr):
            if k is not KickstartVersionError:
                obs.append(Ob("an unsupported %s raises a version error" % kind, g))
        failed += fn.settle(ip, obs, rec, "returnClassForVersion")
    return failed


def p_header(rec):
    """the rendered text starts with the version comment of the handler that wrote it, for any handler contents"""
    from pykickstart.base import KickstartHandler, BaseHandler
    from pykickstart.parser import Packages
    failed = []
    h = cmds.real_handler(S.NEWEST)
    ip = ipx()
    st = fn.start(ip)
    ref = ip.lift(h)
    hh = ip.get(st, ref)
    n = z3.Int("version")
    plat = sym_str("platform")
    nulls = ip.seq("nulls", ANY)
    nl = ip.new(st, HList((Star(True, nulls, nulls.val),)))
    empty = ip.new(st, HList(()))
    fn.freeze(ip, st)
    ip.base[ref.id] = HInst(hh.cls, dict(hh.attrs, version=SInt(n), platform=plat, scripts=empty, _null_section_strings=nl), hh.native)
    st.assume(Or(*[n == k for k in S.NUMBERS.values()]))
    ip.models[KickstartHandler.__str__] = lambda ip_, s, a, kw: [(s, sym_str("commands"))]
    ip.models[Packages.__str__] = lambda ip_, s, a, kw: [(s, sym_str("packages"))]
    nr, rr = fn.call(ip, st, BaseHandler.__str__, [ref])
    obs = [Ob("rendering never fails", Or(*[And(*s.pc) for s, _ in rr]))]
    for s, v in [(s.fork(g), x) for s, v in nr for g, x in fn.expand(as_rope(v))]:
        if s.dead():
            continue
        lines = head_lines(as_rope(v), 3)
        if lines is None:
            raise Unsupported("shape of the rendered text")
        first = lines[0]
        ok1 = isinstance(first, str) and first.startswith("# ")
        obs.append(Ob("the first line is a comment", And(*s.pc) if not ok1 else False))
        bad = []
        for g, name in [(n == num, nm) for nm, num in S.NUMBERS.items() if nm != "DEVEL" and num != S.NEWEST] + [(n == S.NEWEST, "DEVEL")]:
            want = "#version=" + name
            # either line 2 is the version line, or line 2 is the platform line and line 3 the version line
            a = ip.eq(s, lines[1], want)
            b = And(prefix(ip, lines[1], "#platform="), ip.eq(s, lines[2], want)) if lines[2] is not None else False
            bad.append(And(g, Not(Or(a, b))))
        obs.append(Ob("the version comment names the version", And(*s.pc, Or(*bad))))
    failed += fn.settle(ip, obs, rec, "BaseHandler.__str__")
    return failed


def prefix(ip, s, lit):
    from pyvc.models import prefix_g
    return s.startswith(lit) if isinstance(s, str) else prefix_g(ip, s, lit)


def head_lines(rope, k):
    """first k lines of a rope whose newlines are literal (atoms before them are taken as one-line values)"""
    out, cur = [], []
    if isinstance(rope, str):
        rope = SStr((rope,))
    parts = list(rope.parts)
    for p in parts:
        if isinstance(p, str):
            bits = p.split("\n")
            for b in bits[:-1]:
                out.append(mk_str(cur + [b]))
                cur = []
                if len(out) == k:
                    return out
            cur = [bits[-1]] if bits[-1] else []
        elif isinstance(p, Cho):
            return None
        else:
            cur.append(p)
    out.append(mk_str(cur) if cur else None)
    return (out + [None] * k)[:k]


# ------------------------------------------------------------------------------------------- native
def outcome(f, *a, **kw):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ("ok", f(*a, **kw))
    except Exception as e:          # noqa: B902
        return ("exc", type(e).__name__)


def words(rng, n):
    base = list(S.NUMBERS)
    out = base + [b.lower() for b in base] + [b.capitalize() for b in base]
    out += ["".join(rng.choice((c.lower(), c.upper())) for c in b) for b in base for _ in range(3)]
    for i in list(range(0, 45)) + [100, 77]:
        for p in ("fedora %d", "Fedora Core %d", "FEDORA %d", "fedora  linux %d", "fedora%d", "Fedora release %d", "red hat enterprise linux %d", "Red Hat Enterprise Linux Server %d.3",
                  "RED HAT ENTERPRISE LINUX %d.", "red hat enterprise linux%d", "F%d", "FC%d", "RHEL%d", "RHEL %d", "f %d", "Fedora %d ", " fedora %d", "rhel%d.1", "fedora %d beta", "xfedora %d",
                  "fedora 1 %d", "red hat enterprise linux 7.%d", "fedora 0%d"):
            out.append(p % i)
    out += ["", " ", "devel", "DEVEL ", "fedora", "fedora x", "rawhide", "RHEL", "F", "FC", "F7x", "F-7", "CentOS 7", "fedora \u0663", "Fedora 7\n"]
    for _ in range(n):
        w = list(rng.choice(out))
        if w:
            w[rng.randrange(len(w))] = rng.choice("fF7 xR0.\n")
        out.append("".join(w))
    return out


def native(task, rng, n):
    V = R()
    if task == "stringToVersion":
        for w in words(rng, n):
            a, b = outcome(V.stringToVersion, w), outcome(S.stringToVersion, w)
            yield
            if a != b:
                yield "stringToVersion(%r) gives %s, should give %s" % (w, a, b), {"name": w}
    elif task in ("versionToString", "versionToLongString"):
        nums = sorted(S.NUMBERS.values())
        for k in nums + [x + d for x in nums for d in (-1, 1, 100, -100)] + [0, -1, 10**9] + [rng.randrange(40000) for _ in range(n)]:
            for f, a in (("versionToString", ()), ("versionToString", (True,)), ("versionToLongString", ())):
                x, y = outcome(getattr(V, f), k, *a), outcome(getattr(S, f), k, *a)
                yield
                if x != y:
                    yield "%s%r gives %s, should give %s" % (f, (k,) + a, x, y), {"function": f, "number": k}
    elif task == "versionFromFile":
        lines = ["#version=F7\n", "#version=rhel6\n", "#version=Fedora 20  \n", "#version=DEVEL\n", "#version=bogus\n", "#version=\n", " #version=F8\n", "# version=F8\n", "\n", "   \n", "text\n", "# c\n",
                 "%packages\n", "%end\n", "#platform=x\n", "#VERSION=F7\n", "x #version=F9\n", "#version=F10", "#version=F11\r\n", "%pre\n"]
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "ks.cfg")
            for i in range(60 + n // 5):
                t = [] if i == 0 else [lines[i - 1]] if i <= len(lines) else [rng.choice(lines) for _ in range(rng.randint(2, 6))]
                with open(f, "w", newline="") as o:
                    o.write("".join(t))
                with open(f) as o:
                    text = o.read()
                a, b = outcome(V.versionFromFile, f), outcome(S.versionOfLines, text)
                yield
                if a != b:
                    yield "versionFromFile of %r gives %s, should give %s" % ("".join(t), a, b), {"text": "".join(t)}
            yield
            a = outcome(V.versionFromFile, os.path.join(d, "missing"))
            if a != ("exc", "KickstartError"):
                yield "versionFromFile of a missing file gives %s" % (a,), {"text": None}
    elif task in ("returnClassForVersion", "names"):
        for name, num in S.NUMBERS.items():
            for v in (num, name, name.lower(), name.capitalize(), str(num)):
                a = outcome(V.returnClassForVersion, v)
                yield
                if a[0] != "ok" or getattr(a[1], "version", None) != num:
                    yield "returnClassForVersion(%r) gives %s, should be the handler of %s" % (v, a, num), {"version": v}
                h = outcome(V.makeVersion, v)
                yield
                if h[0] != "ok" or h[1].version != num or type(h[1]) is not a[1]:
                    yield "makeVersion(%r) gives %s" % (v, h), {"version": v}
            a = outcome(lambda: V.stringToVersion(V.versionToString(num)))
            b = outcome(lambda: V.stringToVersion(V.versionToString(num, skipDevel=True)))
            yield
            if a != ("ok", num) or b != ("ok", num):
                yield "the name of %d does not map back (%s, %s)" % (num, a, b), {"version": num}
            if V.versionMap.get(name) != num:
                yield "versionMap[%r] is %r" % (name, V.versionMap.get(name)), {"version": name}
        if set(V.versionMap) != set(S.NUMBERS):
            yield "supported version names %s" % sorted(set(V.versionMap) ^ set(S.NUMBERS)), {}
        a = outcome(V.makeVersion)
        if a[0] != "ok" or a[1].version != S.NEWEST:
            yield "makeVersion() gives %s" % (a,), {}
        for bad in [0, -1, 1, 5001, 10**6, "", "bogus", "F99", "F6", "RHEL9", "control", "os", "F7 ", "handlers"] + [x for x in words(rng, 0) if outcome(S.stringToVersion, x)[0] == "exc" and not x.strip().isdigit()][:60 + n]:
            a = outcome(V.returnClassForVersion, bad)
            yield
            if a != ("exc", "KickstartVersionError"):
                yield "returnClassForVersion(%r) gives %s, should raise KickstartVersionError" % (bad, a), {"version": bad}
    elif task == "header":
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "ks.cfg")
            for name, num in S.NUMBERS.items():
                for plat in ("", "x86_64", "a=b #version=F7"):
                    h = V.makeVersion(num)
                    h.platform = plat
                    with open(f, "w") as o:
                        o.write(str(h))
                    a = outcome(V.versionFromFile, f)
                    yield
                    if a != ("ok", num):
                        yield "the text written by %s (platform %r) is read back as %s" % (name, plat, a), {"version": name, "platform": plat}


PROOFS = {"stringToVersion": p_string, "versionToString": p_tostring, "versionToLongString": p_tolong, "versionFromFile": p_fromfile,
          "returnClassForVersion": p_class, "header": p_header}


def run(task, rec):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    rng = random.Random("C11 %s %s" % (task, os.environ.get("VERIF_SEED", "1")))
    fn.prove_then_search(task, rec, PROOFS.get(task), native(task, rng, 20000 if thorough else 800))
    if task == "names":
        rec.ob("every supported name and number has its handler (finite, all %d names)" % len(S.NUMBERS), "failed" if rec.violations else "discharged", "exhaustive evaluation")


def main():
    return runner.main("C11", tasks(), run, trusted=["version table /verif/ksspec/registry.json"],
                       assumptions=["importlib.import_module of a shipped handler module succeeds (evaluated for all versions)"])
