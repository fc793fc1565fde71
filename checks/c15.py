"""C15: ksvalidator, ksflatten, ksverdiff."""
import argparse
import contextlib
import importlib
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings

import z3

from pyvc import cmds, concrete, fn, runner
from pyvc.compare import Ob
from pyvc.values import *          # noqa: F401,F403
from checks import c10
from checks import machine as M
from ksspec import loadspec as S
from ksspec.version import versionMap

REPO = os.environ.get("VERIF_REPO_COPY", "/repo")


def T(name):
    return importlib.import_module("tools." + name)


class Options:
    """what argparse hands back (ghost)"""


class Command:
    """the argument parser (ghost)"""
    def add_argument(self, *a, **kw):
        raise NotImplementedError

    def parse_args(self, argv=None):
        raise NotImplementedError

    def format_help(self):
        raise NotImplementedError

    def format_usage(self):
        raise NotImplementedError


class Handler:
    def __str__(self):
        raise NotImplementedError


ANYTHING = "KickstartError", "KickstartParseError", "KickstartVersionError", "KickstartParseWarning", "KickstartDeprecationWarning"


class World:
    """an interpreter in which every outside operation is recorded and may fail"""
    def __init__(self, opts):
        import pykickstart.errors as E
        import pykickstart.load as L
        import pykickstart.parser as P
        import pykickstart.version as V
        self.ip = ip = cmds.new_ip()
        ip.inline_ok = lambda f: (f.__module__ or "").split(".")[0] in ("pykickstart", "ksspec", "tools")
        self.st = st = fn.start(ip)
        self.E = E
        errors = [getattr(E, n) for n in ANYTHING] + [ValueError, OSError]
        self.opts = ip.new(st, HInst(Options, dict(opts)))
        self.command = ip.new(st, HInst(Command, {}))
        self.count = SInt(z3.Int("errors counted"))
        st.assume(z3.Int("errors counted") >= 0)
        ip.models[argparse.ArgumentParser] = lambda ip, s, a, kw: [(s, self.command)]
        ip.models[Command.add_argument] = lambda ip, s, a, kw: [(s, None)]
        ip.models[Command.parse_args] = lambda ip, s, a, kw: [(s, self.opts)]
        for n in ("format_help", "format_usage"):
            ip.models[getattr(Command, n)] = lambda ip, s, a, kw, n=n: [(s, sym_str(n))]
        self.op(tempfile.mkdtemp, "mkdtemp", lambda ip, s, a, kw: M.strfun(ip, "a new directory", [kw.get("prefix", "")]))
        self.op(os.path.join, None, lambda ip, s, a, kw: M.strfun(ip, "path of %d" % len(a), a))
        self.op(L.load_to_file, "load", lambda ip, s, a, kw: a[1], E.KickstartError, UnicodeError)
        self.op(V.makeVersion, "version", lambda ip, s, a, kw: ip.new(s, HInst(Handler, {"version": a[0]})), E.KickstartVersionError)
        self.op(P.preprocessKickstart, "preprocess", self.processed, *errors)
        self.op(P.KickstartParser, "parser", lambda ip, s, a, kw: ip.new(s, HInst(P.KickstartParser, {
            "handler": a[0], "errorsCount": 0, "errorsAreFatal": kw.get("errorsAreFatal", True), "followIncludes": kw.get("followIncludes", True),
            "missingIncludeIsFatal": kw.get("missingIncludeIsFatal", True), "unknownSectionIsFatal": kw.get("unknownSectionIsFatal", True)})))
        self.op(P.KickstartParser.readKickstart, "read", lambda ip, s, a, kw: ip.put(s, a[0], ip.get(s, a[0]).set("errorsCount", self.count)), *errors, snap=lambda ip, s, a: self.setup(ip, s, a[0]) + tuple(a[1:]))
        self.op(shutil.rmtree, "rmtree", lambda *a: None)
        self.op(os.remove, "remove", lambda *a: None, FileNotFoundError)
        self.op(os.unlink, "remove", lambda *a: None, FileNotFoundError)
        self.op(warnings.filterwarnings, "filter", lambda *a: None, snap=lambda ip, s, a: ())
        self.op(warnings.simplefilter, "filter", lambda *a: None, snap=lambda ip, s, a: ())
        self.op(sys.exit, "exit", lambda *a: None)
        ip.models[sys.exit] = lambda ip, s, a, kw: self.exit(ip, s, a)
        ip.models[print] = lambda ip, s, a, kw: self.emit(s, ("print",) + tuple(a))
        ip.models[Handler.__str__] = lambda ip, s, a, kw: [(s, self.text_of(ip, s, a[0]))]
        ip.assumed |= {"tempfile.mkdtemp makes a new directory, shutil.rmtree removes it with everything in it", "argparse hands back the options that were given (evaluated for every combination of flags)",
                       "outside operations fail with Exception subclasses only (an interrupt is not considered)"}

    def emit(self, s, ev):
        s = s.fork()
        s.emit(ev)
        return [(s, None)]

    def exit(self, ip, s, a):
        s = s.fork()
        s.emit(("exit",) + tuple(a))
        ip.raise_new(s, SystemExit, *a)
        return []

    def setup(self, ip, s, p):
        h = ip.get(s, p).attrs
        return (ip.get(s, h["handler"]).attrs["version"], h["followIncludes"], h["errorsAreFatal"], h["missingIncludeIsFatal"], h["unknownSectionIsFatal"])

    def processed(self, ip, s, a, kw):
        return merge_val(z3.Bool("nothing is left after preprocessing"), None, M.strfun(ip, "processed file", a))

    def text_of(self, ip, s, r):
        read = [e for e in s.trace if e[0] == "read"]
        if len(read) != 1:
            raise Unsupported("text of a handler that was not read")
        return M.strfun(ip, "text of the handler", [read[0][-1]])

    def op(self, f, what, result, *exc, snap=None):
        def model(ip, s, a, kw):
            s = s.fork()
            if what:
                s.emit((what,) + (snap(ip, s, a) if snap else tuple(x for x in a if not isinstance(x, Ref))))
            for i, x in enumerate(exc):
                n = sum(1 for e in s.trace if e[0] == what)
                bad, s = ip.branch(s, z3.Int("%s!%d" % (what, n)) == i + 1)
                if bad is not None:
                    bad = bad.fork()
                    bad.emit((what + " failed", x.__name__))
                    at = {"value": "failed", "message": "failed", "lineno": None} if issubclass(x, self.E.KickstartError) else {}
                    ip.raise_new(bad, x, "failed", **at)
                if s is None:
                    return []
            return [(s, result(ip, s, a, kw))]
        self.ip.models[f] = model


def paths(ip, nr, rr):
    """-> [(state, value, None) | (state, None, exception class)] with choices expanded"""
    for s, v in nr:
        for g, x in (v.alts if isinstance(v, SUnion) else ((True, v),)):
            s2 = s.fork(g)
            if not s2.dead():
                yield s2, x, None
    for g, s, k, h in fn.exc_alts(ip, rr):
        s2 = s.fork(g)
        if not s2.dead():
            yield s2, None, k


def alts(v):
    return v.alts if isinstance(v, SUnion) else ((True, v),)


def has(trace, what):
    return [e for e in trace if e[0] == what]


def p_validator(rec):
    b = lambda n: SBool(z3.Bool(n))     # noqa: E731
    opts = {"ksfile": merge_val(z3.Bool("a file is given"), sym_str("ksfile"), None), "firsterror": b("first error"), "followincludes": b("follow includes"), "listversions": b("list versions"),
            "version": sym_str("version"), "help": b("help")}
    w = World(opts)
    ip, st = w.ip, w.st
    fn.freeze(ip, st)
    argv = ip.new(st, HList(()))
    nr, rr = fn.call(ip, st, T("ksvalidator").main, [argv])
    obs = []
    dest, name = M.strfun(ip, "a new directory", ["ksvalidator-tmp-"]), sym_str("ksfile")
    n = 0
    for s, v, exc in paths(ip, nr, rr):
        n += 1
        tr, pc = list(s.trace), list(s.pc)
        what = ", ".join(e[0] for e in tr) or "nothing"
        failed = [e for e in tr if e[0].endswith(" failed") and e != ("remove failed", "FileNotFoundError")]

        def must(title, g):
            obs.append(Ob("%s (after: %s)" % (title, what), And(*pc, Not(g))))
        if exc is not None:
            must("main ends with a status unless loading fails unexpectedly", failed == [("load failed", "UnicodeError")])
        # nothing is left behind
        made = has(tr, "mkdtemp")
        if made:
            gone = has(tr, "rmtree")
            where = [i for i, e in enumerate(tr) if e[0] in ("load", "preprocess")]
            must("the directory is removed", bool(gone))
            must("the directory is removed at the end", not gone or not where or max(i for i, e in enumerate(tr) if e[0] == "rmtree") > max(where))
            for e in gone:
                must("it is the directory that was made", Or(*[ip.eq(s, e[1], M.strfun(ip, "a new directory", [p])) for p in ("ksvalidator-tmp-", "")]))
        else:
            must("nothing is loaded without a directory for it", not has(tr, "load"))
        if has(tr, "preprocess") and not has(tr, "preprocess failed"):
            f = M.strfun(ip, "processed file", has(tr, "preprocess")[0][1:])
            must("the preprocessed file is removed", Or(z3.Bool("nothing is left after preprocessing"), *[ip.eq(s, e[1], f) for e in has(tr, "remove") if e[1] is not None]))
        for e in has(tr, "remove"):
            must("no other file is removed", And(bool(has(tr, "preprocess")), *[ip.eq(s, e[1], M.strfun(ip, "processed file", p[1:])) for p in has(tr, "preprocess")]))
        # the steps
        for e in has(tr, "load"):
            must("the given file is loaded", ip.eq(s, e[1], name))
        for e in has(tr, "preprocess"):
            must("the loaded file is preprocessed", bool(has(tr, "load")) and ip.eq(s, e[1], has(tr, "load")[0][2]))
            must("what is given is what is preprocessed", len(e) == 2)
        for e in has(tr, "read"):
            must("warnings are errors while reading", any(x[0] == "filter" for x in tr[:tr.index(e)]))
            must("the preprocessed file is read", And(bool(has(tr, "preprocess")), ip.eq(s, e[6], M.strfun(ip, "processed file", has(tr, "preprocess")[0][1:])) if has(tr, "preprocess") and len(e) > 6 else False))
            for what2, x, y in (("version", e[1], opts["version"]), ("includes followed", e[2], opts["followincludes"]), ("stops at the first error", e[3], opts["firsterror"]),
                                ("missing include", e[4], True), ("unknown section", e[5], True)):
                must("parser setting: %s" % what2, ip.eq(s, x, y))
        # the status
        if exc is None:
            if not isinstance(v, tuple) or len(v) != 2:
                must("main returns a status and messages", False)
                continue
            info = Or(z3.Bool("help"), z3.Bool("list versions"))
            done = bool(has(tr, "preprocess")) and not failed
            good = Or(info, And(done, z3.Int("errors counted") == 0)) if not made else And(done, Or(z3.Int("errors counted") == 0, z3.Bool("nothing is left after preprocessing")))
            if done:
                must("everything that was preprocessed is read", Or(z3.Bool("nothing is left after preprocessing"), bool(has(tr, "read"))))
            for g, x in alts(v[0]):
                if isinstance(x, bool) or not isinstance(x, (int, SInt)):
                    must("the status is a number", Not(g))
                    continue
                z = x.z if isinstance(x, SInt) else z3.IntVal(x)
                must("the status is zero only if there was no error or warning", Or(Not(And(g, z == 0)), And(info, not made), And(done, good)))
                must("the status is zero if there was no error or warning", Or(Not(g), Not(good) if made else Not(info), z == 0))
                must("the status fits an exit status", Or(Not(g), And(z >= 0, z <= 255)))
    if n < 10:
        raise Unsupported("main has only %d paths" % n)
    return fn.settle(ip, obs, rec, "ksvalidator main")


def p_flatten(rec):
    from pykickstart.errors import KickstartError
    opts = {"kscfg": sym_str("kscfg"), "version": sym_str("version"), "output": merge_val(z3.Bool("an output is given"), sym_str("output", Dom(nonempty=True)), None)}
    w = World(opts)
    ip, st = w.ip, w.st
    import builtins
    w.op(builtins.open, "open", lambda ip, s, a, kw: ip.new(s, HInst(S.File, {"path": a[0]})), OSError)
    w.op(S.File.write, "write", lambda ip, s, a, kw: None, OSError, snap=lambda ip, s, a: (ip.get(s, a[0]).attrs["path"], a[1]))
    for f in (S.File.close, S.File.__exit__):
        ip.models[f] = lambda ip, s, a, kw: w.emit(s, ("close", ip.get(s, a[0]).attrs["path"]))
    ip.models[S.File.__enter__] = lambda ip, s, a, kw: [(s, a[0])]
    w.op(sys.stdout.write, "write", lambda ip, s, a, kw: None, OSError, snap=lambda ip, s, a: (None, a[0]))
    ip.models[sys.stdout.flush] = lambda ip, s, a, kw: [(s, None)]
    fn.freeze(ip, st)
    nr, rr = fn.call(ip, st, T("ksflatten").main, [None])
    obs = []
    text = M.strfun(ip, "text of the handler", [opts["kscfg"]])
    n = 0
    for s, v, exc in paths(ip, nr, rr):
        n += 1
        tr, pc = list(s.trace), list(s.pc)
        what = ", ".join(e[0] for e in tr) or "nothing"
        failed = [e for e in tr if e[0].endswith(" failed")]

        def must(title, g):
            obs.append(Ob("%s (after: %s)" % (title, what), And(*pc, Not(g))))
        given = z3.Bool("an output is given")
        if exc is not None:
            if exc is SystemExit:
                e = has(tr, "exit")
                must("leaving has a non-zero status", bool(e) and len(e[-1]) > 1 and isinstance(e[-1][1], int) and e[-1][1] % 256 != 0)
                must("leaving has a message", bool(has(tr, "print")))
            else:
                must("a failure leaves main as a traceback only if something failed", bool(failed))
            continue
        if not isinstance(v, tuple) or len(v) != 2:
            must("main returns a status and a message", False)
            continue
        wr = has(tr, "write")
        ok = not failed and bool(has(tr, "read")) and len(wr) == 1
        for g, x in alts(v[0]):
            z = x if isinstance(x, SInt) else None
            zero = (x == 0) if z is None else z.z == 0
            must("the status is zero only if the text was written", Or(Not(And(g, zero)), ok))
            must("the status is zero if nothing failed", Or(Not(g), zero, bool(failed), Not(ip.truth(s, opts["kscfg"]))))
            must("the status is an exit status", Or(Not(g), And(z.z >= 0, z.z < 256) if z is not None else 0 <= x < 256))
            for g2, m in alts(v[1]):
                must("a failure has a message", Or(Not(And(g, g2)), zero, ip.truth(s, m)))
        if not failed:
            for e in has(tr, "read"):
                must("the given file is read", ip.eq(s, e[6], opts["kscfg"]))
                for what2, x, y in (("version", e[1], opts["version"]), ("includes followed", e[2], True), ("errors are fatal", e[3], True), ("missing include", e[4], True), ("unknown section", e[5], True)):
                    must("parser setting: %s" % what2, ip.eq(s, x, y))
            for e in wr:
                must("it is the text of the handler", ip.eq(s, e[2], text))
                must("it goes to the output", ip.eq(s, e[1], opts["output"]))
            if wr:
                closed = [e for e in has(tr, "close") if tr.index(e) > tr.index(wr[-1])]
                must("the output is closed", Or(Not(given), *[ip.eq(s, e[1], opts["output"]) for e in closed]))
            for e in has(tr, "open"):
                must("the output is opened for writing, after reading", And(len(e) == 3 and e[2] in ("w", "w+", "wt"), ip.eq(s, e[1], opts["output"]), any(x[0] == "read" for x in tr[:tr.index(e)])))
    if n < 6:
        raise Unsupported("main has only %d paths" % n)
    return fn.settle(ip, obs, rec, "ksflatten main")


# ------------------------------------------------------------------ ksverdiff: every pair of versions
HANDLERS = {}


def made(name):
    from pykickstart.version import makeVersion
    if name not in HANDLERS:
        HANDLERS[name] = makeVersion(name)
    return HANDLERS[name]


def is_kind(obj, name):
    return any(k.__name__ == name for k in type(obj).__mro__)


def differences(f, t):
    """what should be listed, by heading"""
    a, b = made(f).commands, made(t).commands
    have = lambda d: {k for k, o in d.items() if not is_kind(o, "RemovedCommand")}      # noqa: E731
    out = {"commands removed": have(a) - have(b), "commands added": have(b) - have(a),
           "commands deprecated": {k for k in have(b) if is_kind(b[k], "DeprecatedCommand")}}
    for k in sorted(set(a) & set(b)):
        if not hasattr(a[k], "op") or not hasattr(b[k], "op"):
            continue
        names = lambda o: {n for x in o.op._actions for n in (x.option_strings or [""])}      # noqa: E731
        x, y = names(a[k]), names(b[k])
        out["options added to " + k] = y - x
        out["options removed from " + k] = x - y
        out["options deprecated from " + k] = {n for o in b[k].op._actions if getattr(o, "deprecated", False) for n in (o.option_strings or [""])}
    return {k: v for k, v in out.items() if v}


def listed(text, t):
    """the lists that were printed"""
    import re
    out, key = {}, None
    for line in text.split("\n"):
        m = re.match(r"The following (commands|options) were (\w+)(?: (?:to|from) the (\S+) command)? in (\S+):$", line)
        if m:
            if m.group(4) != t:
                return {"heading": {line}}
            key = "%s %s" % (m.group(1), m.group(2))
            if m.group(3):
                key += {"added": " to ", "removed": " from ", "deprecated": " from "}[m.group(2)] + m.group(3)
            out.setdefault(key, [])
        elif line and key is None:
            return {"line": {line}}
        elif line:
            out[key] += line.split(" ")
    return {k: (set(v) if len(v) == len(set(v)) else v) for k, v in out.items() if v}


def verdiff(rec, part, parts):
    V = T("ksverdiff")
    names = sorted(versionMap, key=lambda n: (versionMap[n], n))
    real, V.makeVersion = V.makeVersion, lambda n: made(n) if n in versionMap else real(n)
    try:
        pairs = [(f, t) for f in names for t in names]
        for f, t in pairs[part::parts]:
            out = io.StringIO()
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    r = V.main(["-f", f, "-t", t])
                except Exception as e:          # noqa: B902
                    r = repr(e)
            want, got = differences(f, t), listed(out.getvalue(), t)
            ok = want == got and r in (0, None)
            rec.ob("ksverdiff %s to %s lists exactly the differences" % (f, t), "discharged" if ok else "failed", "evaluation")
            if not ok:
                k = [k for k in sorted(set(want) | set(got)) if want.get(k) != got.get(k)] or ["status"]
                yield ("ksverdiff from %s to %s: %s: %s instead of %s (status %r)" % (f, t, k[0], sorted(got.get(k[0], [])), sorted(want.get(k[0], [])), r),
                       {"from": f, "to": t, "what": k[0]}, "verdiff")
        if part == 0:
            for argv in (["-f", "F99", "-t", "F20"], ["-f", "F20", "-t", "nope"], ["-f", "F20"], ["-t", "F20"], []):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    r = V.main(argv)
                if not r or not out.getvalue():
                    yield ("ksverdiff %s: status %r" % (" ".join(argv), r), {"argv": argv}, "verdiff status")
    finally:
        V.makeVersion = real


# ------------------------------------------------------------------ native search
GOOD = ["timezone Europe/Prague\n", "lang en_US\n", "rootpw secret\n", "# c\n", "\n", "keyboard us\n", "reboot\n", "%pre\necho x\n%end\n", "%post --nochroot\ntrue\n%end\n",
        "%packages\n@core\n-x\n%end\n", "%pre\n%end\n", "bootloader --location=mbr\n"]
BAD = ["nosuchcommand\n", "timezone\n", "reboot --nosuch\n", "%pre --bogus\n%end\n", "lang\n", "rootpw --lock --bogus x\n"]
WARN = ["%traceback\nx\n%end\n", "mouse foo\n", "install\n", "upgrade\n", "autostep\n", "repo --name=a --baseurl=b\nrepo --name=a --baseurl=b\n", "bootloader --upgrade --foo\n", "logging --level=info\n",
        "url --url=http://x --ignoregroups=true\n", "timezone --isUtc Europe/Prague\n", "auth --enablemd5\n"]
ODD = ["rootpw 'abc\n", "%ksappend sub.ks\n", "%include inc.ks\n", "%include missing.ks\n", "%ksappend missing.ks\n", "%nosuch\nx\n%end\n", "%include /etc/hostname\n", "%pre\nx\n", "\xe9\n",
       "%packages\n@ --nodefaults --optional\n%end\n"]
VERSIONS = ["FC3", "F7", "F20", "F29", "F34", "RHEL6", "RHEL7", "RHEL8", "DEVEL"]


def expected(path, version, follow):
    """zero exactly when reading meets no error and no warning"""
    from pykickstart.errors import KickstartParseWarning
    from pykickstart.parser import KickstartParser, preprocessKickstartToString
    from pykickstart.version import makeVersion
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        try:
            h = makeVersion(version)
            text = preprocessKickstartToString(path)
            p = KickstartParser(h, followIncludes=follow, errorsAreFatal=False)
            p.readKickstartFromString(text.decode("utf-8") if isinstance(text, bytes) else text)
        except Exception:          # noqa: B902
            return False
    return p.errorsCount == 0 and not any(issubclass(w.category, KickstartParseWarning) for w in got)


class Scratch:
    """a directory of its own, temporary files included"""
    def __enter__(self):
        self.old, self.cwd = tempfile.tempdir, os.getcwd()
        self.root = tempfile.mkdtemp(prefix="verif-c15-")
        self.tmp, self.work = os.path.join(self.root, "tmp"), os.path.join(self.root, "work")
        os.mkdir(self.tmp)
        os.mkdir(self.work)
        tempfile.tempdir = self.tmp
        os.chdir(self.work)
        return self

    def __exit__(self, *exc):
        tempfile.tempdir = self.old
        os.chdir(self.cwd)
        shutil.rmtree(self.root)

    def write(self, name, text):
        with open(os.path.join(self.work, name), "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return os.path.join(self.work, name)

    def left(self):
        return sorted(os.listdir(self.tmp))


def quiet(f, *a):
    """-> (result or the exception, what was printed)"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
        try:
            r = f(*a)
        except (Exception, SystemExit) as e:          # noqa: B902
            r = e
    return r, out.getvalue()


def status_of(r):
    """the exit status of the process for a result of main"""
    if isinstance(r, SystemExit):
        return r.code
    if isinstance(r, Exception):
        return 1
    return r[0] if isinstance(r, tuple) else r


def sample(rng):
    k = rng.random()
    pool = GOOD if k < .5 else GOOD + BAD if k < .65 else GOOD * 2 + WARN if k < .85 else GOOD + BAD + WARN + ODD
    return "".join(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 6])))


class Fault:
    """one outside call fails"""
    def __init__(self, where, name, exc):
        self.where, self.name, self.exc = where, name, exc

    def __enter__(self):
        if self.where is None:
            return
        self.real = getattr(self.where, self.name)

        def boom(*a, **kw):
            raise self.exc
        setattr(self.where, self.name, boom)

    def __exit__(self, *e):
        if self.where is not None:
            setattr(self.where, self.name, self.real)


def faults():
    import pykickstart.load as L
    import pykickstart.parser as P
    import pykickstart.base as B
    return [(None, None, None), (P.os, "write", OSError(28, "No space left")), (L.shutil, "copyfile", OSError(13, "denied")), (L.shutil, "copyfile", UnicodeError("x")),
            (P.KickstartParser, "readKickstart", OSError("x")), (P.KickstartParser, "readKickstart", RuntimeError("x")), (P.KickstartParser, "readKickstart", KeyError("x")),
            (P, "load_to_str", RuntimeError("x")), (B.KickstartHandler, "dispatcher", MemoryError())]


def n_validator(seed, part, n):
    main = T("ksvalidator").main
    rng = random.Random("C15 validator %d %d" % (seed, part))
    with Scratch() as d:
        d.write("sub.ks", "lang en_US\n")
        d.write("inc.ks", "keyboard us\n")
        for i in range(n):
            text = sample(rng)
            version = rng.choice(VERSIONS)
            kind = rng.random()
            path = d.write("in.ks", text) if kind < .95 else d.write("in.ks", b"lang \xff\n") if kind < .97 else "missing.ks" if kind < .98 else d.work
            follow, first = rng.random() < .4, rng.random() < .4
            argv = [path, "-v", version] + ["-i"] * follow + ["-e"] * first
            if rng.random() < .02:
                argv[2] = version = rng.choice(["F99", "", "x"])
            fault = rng.choice(faults()) if rng.random() < .15 else (None, None, None)
            with Fault(*fault):
                r, out = quiet(main, argv)
            st = status_of(r)
            yield None
            info = {"text": text, "argv": argv[1:], "fault": str(fault)}
            if d.left():
                yield ("ksvalidator %s on %r leaves %s behind%s" % (" ".join(argv[1:]), text, d.left(), " (%s fails)" % fault[1] if fault[1] else ""), info, "left")
            if fault[0] is not None:
                continue
            good, _ = quiet(expected, path, version, follow)
            if (st == 0) != (good is True):
                yield ("ksvalidator %s on %r: status %r, but the file %s" % (" ".join(argv[1:]), text, st, "is good" if good else "has errors or warnings"), info, "status")
            if isinstance(r, Exception):
                yield ("ksvalidator %s on %r: %r" % (" ".join(argv[1:]), text, r), info, "raises")
        for k in (1, 255, 256, 257, 512) if part == 0 else ():
            path = d.write("in.ks", "nosuchcommand\n" * k)
            env = dict(os.environ, PYTHONPATH=REPO, TMPDIR=d.tmp, PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([sys.executable, os.path.join(REPO, "tools", "ksvalidator.py"), path], env=env, capture_output=True)
            yield None
            if p.returncode == 0:
                yield ("ksvalidator on %d errors exits with status 0" % k, {"errors": k}, "many errors")
            if d.left():
                yield ("ksvalidator on %d errors leaves %s behind" % (k, d.left()), {"errors": k}, "left")
        for good in (True, False) if part == 0 else ():
            path = d.write("in.ks", "lang en_US\n" if good else "rootpw 'abc\n")
            for tool, more in (("ksvalidator", []), ("ksflatten", [])):
                argv = [path] if tool == "ksvalidator" else ["-c", path]
                p = subprocess.run([sys.executable, os.path.join(REPO, "tools", tool + ".py")] + argv, env=env, capture_output=True)
                yield None
                if (p.returncode == 0) != good or (not good and not p.stdout + p.stderr):
                    yield ("%s exits with status %d on a %s file" % (tool, p.returncode, "good" if good else "bad"), {"tool": tool}, "process")


def expand_includes(text, files, depth=0):
    out = []
    for line in text.splitlines(True):
        if line.startswith("%include ") and line.split()[1] in files and depth < 9:
            out.append(expand_includes(files[line.split()[1]], files, depth + 1))
        else:
            out.append(line)
    return "".join(out)


def n_flatten(seed, part, n):
    from pykickstart.parser import KickstartParser
    from pykickstart.version import makeVersion
    main = T("ksflatten").main
    rng = random.Random("C15 flatten %d %d" % (seed, part))
    with Scratch() as d:
        for i in range(n):
            files = {"sub%d.ks" % k: "".join(rng.choice(GOOD) for _ in range(rng.choice([0, 1, 3]))) for k in (1, 2, 3)}
            files["sub1.ks"] += "%include sub2.ks\n" if rng.random() < .5 else ""
            for k, v in files.items():
                d.write(k, v)
            text = "".join(rng.choice(GOOD + ["%%include sub%d.ks\n" % rng.choice([1, 2, 3])] * 3 + (BAD[:2] + ["%include missing.ks\n", "rootpw 'abc\n"] if rng.random() < .15 else []))
                           for _ in range(rng.choice([1, 2, 4])))
            version = rng.choice(VERSIONS) if rng.random() < .97 else "F99"
            path = d.write("in.ks", text) if rng.random() < .97 else "missing.ks"
            outp = os.path.join(d.work, "out.ks") if rng.random() < .95 else os.path.join(d.work, "no", "out.ks")
            to = rng.random() < .7
            if os.path.exists("out.ks"):
                os.unlink("out.ks")
            if rng.random() < .4:
                d.write("out.ks", "# what was there before\n" * rng.choice([1, 200]))
            r, out = quiet(main, ["-c", path, "-v", version] + (["-o", outp] if to else []))
            st = status_of(r)
            yield None
            info = {"text": text, "files": files, "version": version}

            def whole():
                if path == "missing.ks" or to and "/no/" in outp:
                    raise OSError("no")
                h = makeVersion(version)
                p = KickstartParser(h)
                p.readKickstartFromString(expand_includes(text, files))
                return str(h)
            want, _ = quiet(whole)
            if isinstance(want, Exception):
                if st == 0 or st is None or st % 256 == 0:
                    yield ("ksflatten on %r: status %r although %r" % (text, st, want), info, "status")
                if not out and not isinstance(r, Exception) and not (isinstance(r, tuple) and r[1]):
                    yield ("ksflatten on %r fails without a message" % text, info, "message")
                continue
            if st != 0:
                yield ("ksflatten on %r: status %r (%s) although the input is good" % (text, st, r), info, "status")
            got = open("out.ks").read() if to and os.path.exists("out.ks") else out
            if got != want:
                yield ("ksflatten on %r writes %r, the expanded input is written as %r" % (text, got[:300], want[:300]), info, "text")
            if d.left():
                yield ("ksflatten on %r leaves %s behind" % (text, d.left()), info, "left")


def n_options(rec):
    """every combination of flags: what argparse hands on is what was given"""
    import pykickstart.parser as P
    V = T("ksvalidator")
    for argv, want in ([["-e"], {"errorsAreFatal": True}], [["--firsterror"], {"errorsAreFatal": True}], [["-i"], {"followIncludes": True}], [["--followincludes"], {"followIncludes": True}],
                       [["-e", "-i"], {"errorsAreFatal": True, "followIncludes": True}], [[], {}]):
        for ver in ([], ["-v", "F20"], ["--version", "RHEL7"]):
            seen = {}

            class Parser(P.KickstartParser):
                def __init__(self, *a, **kw):
                    super().__init__(*a, **kw)
                    seen.update(errorsAreFatal=self.errorsAreFatal, followIncludes=self.followIncludes, version=self.version)
            real, V.KickstartParser = V.KickstartParser, Parser
            try:
                with Scratch() as d:
                    r, _ = quiet(V.main, [d.write("in.ks", "lang en_US\n")] + argv + ver)
            finally:
                V.KickstartParser = real
            spec = {"errorsAreFatal": False, "followIncludes": False, "version": versionMap[ver[1] if ver else "DEVEL"]}
            spec.update(want)
            yield None
            if seen != spec or status_of(r) != 0:
                yield ("ksvalidator %s reads with %s instead of %s (%r)" % (" ".join(argv + ver), seen, spec, r), {"argv": argv + ver}, "options")


NV, ND = 4, 6


def tasks():
    return [("validator",), ("flatten",), ("options",)] + [("verdiff", i) for i in range(ND)] + [("native validator", i) for i in range(NV)] + [("native flatten", i) for i in range(2)]


def run(task, rec):
    big = os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    n = 6000 if big else 500
    if task[0] == "validator":
        fn.prove_then_search("ksvalidator", rec, p_validator, n_validator(seed, 0, n))
    elif task[0] == "flatten":
        fn.prove_then_search("ksflatten", rec, p_flatten, n_flatten(seed, 0, n))
    elif task[0] == "options":
        fn.prove_then_search("ksvalidator options", rec, None, n_options(rec))
    elif task[0] == "verdiff":
        fn.prove_then_search("ksverdiff", rec, None, verdiff(rec, task[1], ND))
    elif task[0] == "native validator":
        fn.prove_then_search("ksvalidator", rec, None, n_validator(seed, task[1] + 1, n))
        rec.bounded_for.append("ksvalidator on random files, with failing outside calls: %d runs" % rec.bounded)
    else:
        fn.prove_then_search("ksflatten", rec, None, n_flatten(seed, task[1] + 1, n))
        rec.bounded_for.append("ksflatten on random files with includes: %d runs" % rec.bounded)


TRUSTED = ["reading counts exactly its errors and raises exactly its warnings (C06, C08), the text of a handler is equivalent to what was read (C01, C10)",
           "ksverdiff is decided by evaluating main for every ordered pair of version names against the command and option tables of the handlers (exhaustive, not deductive)"]


def main():
    return runner.main("C15", tasks(), run, trusted=TRUSTED)
