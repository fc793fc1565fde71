"""C13: preprocessing (%ksappend) and loading."""
import importlib
import os
import random
import shutil
import tempfile
import warnings

import z3

from pyvc import cmds, fn, runner
from pyvc import interp as I
from pyvc.cut import Cut
from pyvc.values import *          # noqa: F401,F403
from checks import machine as M
from ksspec import loadspec as S

BLANK, BLANK1, REST = M.BLANK, M.BLANK1, M.REST


def P():
    return importlib.import_module("pykickstart.parser")


def L():
    return importlib.import_module("pykickstart.load")


class W:
    """an interpreter with recorded outside operations"""
    def __init__(self):
        import sys
        self.ip = ip = cmds.new_ip()
        self.st = fn.start(ip)
        ip.models[sys.getdefaultencoding] = lambda ip, st, args, kw: [(st, "utf-8")]
        ip.encode_identity = True
        ip.assumed.add("str.encode/bytes.decode with the same encoding give the text back (text is identified with its encoding)")

    def view(self, st, kind):
        return []

    def fail(self, st, what, *exc):
        """the state where `what` works; the failures are raised"""
        n = sum(1 for e in st.trace if e[0] == what)
        k = z3.Int("%s!%d" % (what, n))
        for i, x in enumerate(exc):
            if st is None:
                return None
            a, st = self.ip.branch(st, k == i + 1)
            if a is not None:
                self.ip.raise_new(a, x, "failed", **({"value": "failed", "message": "failed", "lineno": None} if x.__name__ == "KickstartError" else {}))
        return st

    def op(self, what, result, *exc, pick=None):
        """a recorded operation"""
        def model(ip, st, args, kw):
            st = st.fork()
            vals = pick(args, kw) if pick else list(args)
            st.emit((what,) + tuple(M.snap(ip, st, v) for v in vals))
            st = self.fail(st, what, *exc)
            return [(st, result(ip, st, args, kw))] if st is not None else []
        return model


def settle(w, real, spec, rec, label):
    return fn.settle(w.ip, M.relate(w, M.ends(w, [], *real), M.ends(w, [], *spec)), rec, label)


def text_of(name):
    return lambda ip, st, args, kw: M.strfun(ip, name, args[:1])


# ------------------------------------------------------------------ the preprocessing loop
def pp_line(kind):
    ws, ws1, rest = sym_str("indent", BLANK).parts, sym_str("blank", BLANK1).parts, sym_str("rest", REST).parts
    tail = sym_str("blanks at the end", BLANK).parts
    word = sym_str("word", Dom(no=WS, nonempty=True, name="word")).parts
    glued = sym_str("glued", Dom(no=WS, nonempty=True, name="word")).parts
    other = sym_str("first", Dom(no=WS + "%", one=True, name="first")).parts
    kw = ws + ("%ksappend",)
    return {
        "stop": None, "end": "",
        "blank": SStr(ws1),
        "text": SStr(ws + other + rest),
        "percent": SStr(ws + ("%",) + rest),
        "bare": SStr(kw + tail),
        "file": SStr(kw + ws1 + word + tail),
        "file and more": SStr(kw + ws1 + word + sym_str("blank2", BLANK1).parts + rest),
        "glued": SStr(kw + glued + tail),
        "glued and file": SStr(kw + glued + ws1 + word + tail),
    }[kind]


PP = ("stop", "end", "blank", "text", "percent", "bare", "file", "file and more", "glued", "glued and file")


def p_step(rec, kind):
    from pykickstart.errors import KickstartError
    w = W()
    ip, st = w.ip, w.st
    line = pp_line(kind)
    if kind == "percent":
        st.assume(z3.Not(z3.PrefixOf(z3.StringVal("ksappend"), rope_z(sym_str("rest", REST)))))
    it = ip.new(st, HInst(S.Lines, {"pos": SInt(z3.Int("pos0")), "taken": False}))
    fn.freeze(ip, st)
    # the loop is run over the lines from the first one on
    ip.base[it.id] = ip.base[it.id].set("pos", 0)

    def nxt(ip, st, args, kw):
        h = ip.get(st, args[0])
        if h.attrs["taken"] is not False:
            raise Unsupported("more than one line in an iteration")
        if line is None:
            ip.raise_new(st, StopIteration)
            return []
        st = st.fork()
        h = h.set("taken", True)
        if line != "":
            h = h.set("pos", mk_int(z3.simplify(iz(h.attrs["pos"]) + 1)))
        ip.put(st, args[0], h)
        return [(st, line)]
    ip.models[S.Lines.__next__] = nxt
    load = w.op("load", text_of("text at"), KickstartError)

    def x_load(f): pass
    ip.models[P().load_to_str] = load
    ip.models[x_load] = load
    cut = Cut(ip, it, M.MODULES, text=True)
    nr, rr = fn.call(ip, st, P()._preprocessStateMachine, [it])
    if cut.loops != 1 or len(cut.texts) != 1:
        raise Unsupported("the loop over the lines was not found")
    (acc, (entry, sofar)), = cut.texts.items()
    obs = [fn.Ob("the text starts empty", Not(ip.eq(st, entry, "")))]
    real = [("next", s, s.envs[cut.fid][acc]) for s in cut.backs] + M.ends(w, [], nr, rr)
    st = st.fork()
    st.assume(z3.Int("position") >= 0)
    ip.put(st, it, ip.get(st, it).set("pos", SInt(z3.Int("position"))))
    ns, rs = fn.call(ip, st, S.preprocess_step, [it, sofar, x_load])
    spec = M.ends(w, [], ns, rs, True)
    return fn.settle(ip, obs + cut.obs + M.relate(w, real, spec), rec, "preprocessing a line: %s" % kind)


# ------------------------------------------------------------------ the four ways to preprocess
def p_whole(rec, name):
    """the loop is run once, over the lines of the text; the text it returns is what is returned or written"""
    from pykickstart.errors import KickstartError
    w = W()
    ip, st = w.ip, w.st
    lines = {}

    def machine(ip, st, args, kw):
        it = args[0]
        h = ip.get(st, it) if isinstance(it, Ref) else None
        if not isinstance(h, (HIter, HList)):
            raise Unsupported("the lines that are preprocessed")
        items = list(h.items)
        # the empty line that marks the end may be given or not
        while items and not isinstance(items[-1], Star) and items[-1].v == "" and items[-1].g is True:
            items.pop()
        st = st.fork()
        st.emit(("preprocess", M.Snap(items)))
        st = w.fail(st, "preprocess", KickstartError)
        return [(st, sym_str("preprocessed"))] if st is not None else []
    ip.models[P()._preprocessStateMachine] = machine

    def x_machine(lines): pass
    ip.models[x_machine] = lambda ip, st, args, kw: machine(ip, st, args, kw)
    load = w.op("load", text_of("text at"), KickstartError)

    def x_load(f): pass
    ip.models[P().load_to_str] = load
    ip.models[x_load] = load
    fd = SInt(z3.Int("file descriptor"))
    tmp = sym_str("temporary file")
    ip.models[tempfile.mkstemp] = lambda ip, st, args, kw: [(emitted(st, ("new file",)), (fd, tmp))]

    def oswrite(ip, st, args, kw):
        return [(emitted(st, ("write", args[0], args[1])), SInt(z3.Int("written")))]
    ip.models[os.write] = oswrite
    ip.models[os.close] = lambda ip, st, args, kw: [(emitted(st, ("close", args[0])), None)]
    ip.assumed.add("os.write writes all of the text it is given; tempfile.mkstemp makes a new file")

    def x_write(text): pass

    def written(ip, st, args, kw):
        st = emitted(emitted(emitted(st, ("new file",)), ("write", fd, args[0])), ("close", fd))
        return [(st, tmp)]
    ip.models[x_write] = written
    a = sym_str("argument")
    real = fn.call(ip, st, getattr(P(), name), [a])
    spec = fn.call(ip, st, getattr(S, "from_string" if "String" in name and "FromString" in name else "from_file"),
                   [a, x_machine] if "FromString" in name else [a, x_load, x_machine])
    if not name.endswith("ToString"):
        res = [(s2, v2) for s, v in spec[0] for s2, v2 in fn.call(ip, s, S.to_temporary, [v, x_write])[0]]
        spec = (res, spec[1])
    return settle(w, real, spec, rec, name)


def emitted(st, ev):
    st = st.fork()
    st.emit(ev)
    return st


# ------------------------------------------------------------------ loading
def files(w):
    """ghost files: opening, reading, decoding, writing may fail"""
    ip = w.ip
    import builtins

    def opened(ip, st, args, kw):
        if set(kw) - {"mode", "encoding"}:
            raise Unsupported("open() with %s" % sorted(kw))
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        st = emitted(st, ("open", args[0], mode, kw.get("encoding", "utf-8")))
        st = w.fail(st, "open", IOError)
        return [(st, ip.new(st, HInst(S.File, {"path": args[0], "mode": mode})))] if st is not None else []
    ip.models[builtins.open] = opened

    def read(ip, st, args, kw):
        if args[1:] or kw:
            raise Unsupported("reading a part of a file")
        h = ip.get(st, args[0]).attrs
        st = emitted(st, ("read",))
        st = w.fail(st, "read", IOError)
        if st is None:
            return []
        if "b" in h["mode"]:
            return [(st, ip.new(st, HInst(S.Bytes, {"path": h["path"]})))]
        st = w.fail(st, "decode", UnicodeDecodeError)
        return [(st, M.strfun(ip, "contents with line ends translated", [h["path"]]))] if st is not None else []
    ip.models[S.File.read] = read

    def decode(ip, st, args, kw):
        enc = args[1] if len(args) > 1 else kw.get("encoding", "utf-8")
        if not isinstance(enc, str) or enc.lower().replace("_", "-") not in ("utf-8", "utf8") or len(args) > 2 or set(kw) - {"encoding"}:
            return [(st, M.strfun(ip, "contents decoded as %r %r" % (enc, args[2:]), [ip.get(st, args[0]).attrs["path"]]))]
        st = w.fail(st, "decode", UnicodeDecodeError)
        return [(st, M.strfun(ip, "contents", [ip.get(st, args[0]).attrs["path"]]))] if st is not None else []
    ip.models[S.Bytes.decode] = decode

    def write(ip, st, args, kw):
        st = emitted(st, ("write", args[1]))
        st = w.fail(st, "write", IOError)
        return [(st, SInt(z3.Int("written")))] if st is not None else []
    ip.models[S.File.write] = write

    def close(ip, st, args, kw):
        h = ip.get(st, args[0]).attrs
        if "w" in h["mode"]:
            st = emitted(st, ("close",))
        return [(st, None)]
    ip.models[S.File.close] = close
    ip.models[S.File.__exit__] = close
    ip.assumed.add("open/read/write/decode return or raise OSError/UnicodeDecodeError")
    return opened, read, decode, write, close


def p_file(rec):
    w = W()
    ip = w.ip
    opened, read, decode, write, close = files(w)

    def x_read(f): pass

    def spec_read(ip, st, args, kw):
        out = []
        for s, h in opened(ip, st, [args[0], "rb"], {}):
            for s2, b in read(ip, s, [h], {}):
                out += decode(ip, s2, [b], {})
        return out
    ip.models[x_read] = spec_read
    f = sym_str("file")
    return settle(w, fn.call(ip, w.st, L()._load_file, [f]), fn.call(ip, w.st, S.file_text, [f, x_read]), rec, "_load_file")


def p_copy(rec):
    w = W()
    ip = w.ip

    def x_copy(a, b): pass
    m = w.op("copy", lambda *a: None, OSError)
    ip.models[shutil.copyfile] = m
    ip.models[x_copy] = m
    a = [sym_str("file"), sym_str("destination")]
    ip.assumed.add("shutil.copyfile copies the contents or raises OSError")
    return settle(w, fn.call(ip, w.st, L()._copy_file, a), fn.call(ip, w.st, S.copy_file, a + [x_copy]), rec, "_copy_file")


def p_url(rec):
    import requests
    from requests.exceptions import RequestException, SSLError
    w = W()
    ip = w.ip

    def result(ip, st, args, kw):
        return ip.new(st, HInst(S.Response, {"status_code": SInt(z3.Int("status")), "text": M.strfun(ip, "text at url", args[:1])}))
    ip.opaque_types = tuple(ip.opaque_types or ()) + (type(requests.codes),)
    m = w.op("get", result, SSLError, requests.exceptions.ConnectionError, RequestException, pick=lambda args, kw: list(args) + [kw.get("verify", True)] + [x for k, x in sorted(kw.items()) if k != "verify"])

    def x_get(location, verify): pass
    ip.models[requests.get] = m
    ip.models[x_get] = m
    a = sym_str("location")
    ip.assumed.add("requests.get returns a response or raises a RequestException; its status and text are functions of the request")
    return settle(w, fn.call(ip, w.st, L()._load_url, [a]), fn.call(ip, w.st, S.url_text, [a, x_get, RequestException, True, 200]), rec, "_load_url")


def p_load(rec, tofile):
    from pykickstart.errors import KickstartError
    w = W()
    ip = w.ip
    opened, read, decode, write, close = files(w)

    def x_url(l): pass

    def x_file(l): pass

    def x_copy(a, b): pass

    def x_write(d, t): pass
    for real, x, m in ((L()._load_url, x_url, w.op("url", text_of("url text"), KickstartError)),
                       (L()._load_file, x_file, w.op("file", text_of("file text"), KickstartError)),
                       (L()._copy_file, x_copy, w.op("copy", lambda *a: None, KickstartError))):
        ip.models[real] = m
        ip.models[x] = m

    def spec_write(ip, st, args, kw):
        out = []
        for s, h in opened(ip, st, [args[0], "w"], {}):
            ip.coll.append([])
            try:
                r = write(ip, s, [h, args[1]], {})
            finally:
                bad = ip.coll.pop()
            for s2, v in r:
                out += close(ip, s2, [h], {})
            for s2, e in bad:
                for s3, _ in close(ip, s2, [h], {}):
                    ip.raise_(s3, e)
        return out
    ip.models[x_write] = spec_write
    a = sym_str("location")
    if not tofile:
        return settle(w, fn.call(ip, w.st, L().load_to_str, [a]), fn.call(ip, w.st, S.load_to_str, [a, x_url, x_file]), rec, "load_to_str")
    d = sym_str("destination")
    return settle(w, fn.call(ip, w.st, L().load_to_file, [a, d]), fn.call(ip, w.st, S.load_to_file, [a, d, x_url, x_write, x_copy]), rec, "load_to_file")


# ------------------------------------------------------------------ native search
class Boom(Exception):
    pass


def outcome(f, *a):
    try:
        r = f(*a)
        if isinstance(r, bytes):
            r = r.decode("utf-8")
        return ("returns", r)
    except Exception as e:                      # noqa: B902
        return ("raises", type(e).__name__, getattr(e, "lineno", None))


PIECES = ["lang en_US\n", "\n", "  \n", "# %ksappend a\n", "text", "%ksappend a\n", "  %ksappend\tb \n", "%ksappend\n", "%ksappend missing\n", "%ksappend a b\n",
          "%ksappendx a\n", "%ksappendx\n", "%post\n", "%end\n", "ünï\n", "%ksappend http://h/x\n", "%ksappend  empty", "% ksappend a\n", "a%ksappend b\n", "x\r\n", "\x0b\n", "%ksappend nested\n"]
FILES = {"a": "one\ntwo\n", "b": "no newline", "empty": "", "http://h/x": "from url é\n", "nested": "%ksappend a\n"}


def search(seed, n):
    import contextlib
    from pykickstart.errors import KickstartError
    p = P()
    rng = random.Random("C13 %d" % seed)

    def load(f):
        if f not in FILES:
            raise KickstartError("missing")
        return FILES[f]
    old = p.load_to_str
    tmpdir = tempfile.mkdtemp(prefix="c13-")
    oldtmp, tempfile.tempdir = tempfile.tempdir, tmpdir
    try:
        for i in range(n):
            ls = [PIECES[i]] if i < len(PIECES) else [rng.choice(PIECES) for _ in range(rng.choice([1, 2, 2, 3, 3, 5, 8]))]
            text = "".join(ls)
            FILES["whole"] = text
            calls = []
            p.load_to_str = lambda f: (calls.append(f), load(f))[1]
            want = outcome(S.preprocess, text.splitlines(True), load)
            for name, arg in (("preprocessFromStringToString", text), ("preprocessKickstartToString", "whole")):
                got = outcome(getattr(p, name), arg)
                yield None
                if got != want:
                    yield ("%s gives %r instead of %r" % (name, got, want), {"text": text, "files": FILES, "function": name}, "preprocess")
            if i % 8 == 0:
                for name, arg in (("preprocessFromString", text), ("preprocessKickstart", "whole")):
                    got = outcome(getattr(p, name), arg)
                    if got[0] == "returns" and got[1] is not None:
                        with open(got[1], "rb") as fh:
                            got = ("returns", fh.read().decode("utf-8"))
                    w2 = ("returns", want[1] or None) if want[0] == "returns" else want
                    yield None
                    if got != w2:
                        yield ("%s gives %r instead of %r" % (name, got, w2), {"text": text, "files": FILES, "function": name}, "preprocess")
            for got in (outcome(p.preprocessKickstartToString, "missing"),) if i == 0 else ():
                if got != ("raises", "KickstartError", 0):
                    yield ("a missing file gives %r" % (got,), {"function": "preprocessKickstartToString"}, "missing")
    finally:
        p.load_to_str = old
        tempfile.tempdir = oldtmp
        shutil.rmtree(tmpdir)


def loading(seed):
    """files with every sort of contents, in a scratch directory; a server of one answer on the loopback interface is replaced by a recorder"""
    from pykickstart.errors import KickstartError
    import requests
    l = L()
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        for data in (b"", b"a\n", b"a\r\nb\rc\n", "é\u2028x\n".encode(), b"\xef\xbb\xbfx\n", b"\xff\xfe", b"ab\x80", b"\x00\n", b"x" * 300000):
            f = os.path.join(d, "in")
            with open(f, "wb") as fh:
                fh.write(data)
            try:
                want = ("returns", data.decode("utf-8"))
            except UnicodeDecodeError:
                want = ("raises", "KickstartError", None)
            got = outcome(l.load_to_str, f)
            yield None
            if got != want:
                yield ("load_to_str gives %r instead of %r" % (str(got)[:60], str(want)[:60]), {"data": repr(data[:100])}, "load_to_str")
            got = outcome(l.load_to_file, f, os.path.join(d, "out"))
            yield None
            same = os.path.exists(os.path.join(d, "out")) and open(os.path.join(d, "out"), "rb").read() == data
            if got != ("returns", os.path.join(d, "out")) or not same:
                yield ("load_to_file gives %r" % (got,), {"data": repr(data[:100])}, "load_to_file")
        for name, fun in (("load_to_str", lambda: l.load_to_str(os.path.join(d, "nothing"))), ("load_to_str", lambda: l.load_to_str(d)),
                          ("load_to_file", lambda: l.load_to_file(os.path.join(d, "nothing"), os.path.join(d, "o"))),
                          ("load_to_file", lambda: l.load_to_file(f, os.path.join(d, "no", "dir"))), ("load_to_file", lambda: l.load_to_file(f, f))):
            got = outcome(fun)
            yield None
            if got != ("raises", "KickstartError", None):
                yield ("%s of a file that cannot be read or written gives %r" % (name, got), {"function": name}, name)
        real = requests.get

        class R:
            def __init__(self, code, text):
                self.status_code, self.text, self.content, self.ok = code, text, text.encode("utf-8"), code < 400
        try:
            for code in (200, 201, 204, 301, 304, 400, 403, 404, 500, 503, 100, "ssl", "conn", "timeout", "url"):
                def get(u, **kw):
                    seen.append((u, kw.get("verify", True)))
                    E = requests.exceptions
                    if isinstance(code, str):
                        raise {"ssl": E.SSLError, "conn": E.ConnectionError, "timeout": E.ReadTimeout, "url": E.InvalidURL}[code]("no")
                    return R(code, "text é\n")
                requests.get = get
                for u in ("http://h/k", "https://h/k", "ftp://h"):
                    for verify in (True, False, "/bundle"):
                        seen = []
                        old, l.SSL_VERIFY = l.SSL_VERIFY, verify
                        try:
                            a, b = outcome(l.load_to_str, u), outcome(l.load_to_file, u, os.path.join(d, "o2"))
                        finally:
                            l.SSL_VERIFY = old
                        bad = ("raises", "KickstartError", None)
                        want = ("returns", "text é\n") if code == 200 else bad
                        yield None
                        if a != want or (b == bad) != (want == bad) or seen != [(u, verify)] * 2:
                            yield ("loading %s with outcome %r gives %r and %r, requests %r" % (u, code, a, b, seen), {"url": u, "outcome": code}, "url")
                        if code == 200 and open(os.path.join(d, "o2"), encoding="utf-8").read() != "text é\n":
                            yield ("load_to_file writes something else", {"url": u}, "url")
        finally:
            requests.get = real
    finally:
        shutil.rmtree(d)


PROOFS = {"step": p_step, "whole": p_whole, "file": p_file, "copy": p_copy, "url": p_url, "load": p_load}
WHOLE = ("preprocessFromStringToString", "preprocessKickstartToString", "preprocessFromString", "preprocessKickstart")


def run(task, rec):
    warnings.simplefilter("ignore")
    big = os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    label = " ".join(str(x) for x in task)
    if task[0] == "native":
        fn.prove_then_search("preprocessing", rec, None, search(seed, 60000 if big else 6000))
    elif task[0] == "native loading":
        fn.prove_then_search("loading", rec, None, loading(seed))
    else:
        fn.prove_then_search(label, rec, lambda r: PROOFS[task[0]](r, *task[1:]), ())
    if task[0].startswith("native"):
        rec.bounded_for.append("%s: real code against the specification run natively, %d inputs" % (label, rec.bounded))


def tasks():
    return [("step", k) for k in PP] + [("whole", n) for n in WHOLE] + [("file",), ("copy",), ("url",), ("load", False), ("load", True), ("native",), ("native loading",)]


TRUSTED = ["ghost files, responses and lines (ksspec.loadspec): outside operations return or raise their documented errors"]


def main():
    return runner.main("C13", tasks(), run, trusted=TRUSTED)
