"""bounded stand-in and replay for the reading machine: real parser against the specification run natively"""
import itertools
import random
import warnings

from ksspec import refparser as R

LINES = ["cmd a 'b c' # d\n", "cmd2 \"x\"\n", "bad\n", "worse x\n", "odd y\n", "\t%end\n", "\n", "  \t\n", "# c\n", "  # c\n", "#platform=x86 \n", " #platform=p\n",
         "%pre --x 'y z'\n", "%pre bad\n", "%packages worse # c\n", "%unknown a 'b c'\n", "%end\n", "  %end # x\n", "%include inc\n",
         "%include missing\n", " %include\n", "%include ''\n", "%ksappend u\n", "%foo bar\n", "it's \"x\n", '"" x\n', "  %packages\n", "'%pre' q\n", "%\n", "x \\\n"]
FILES = [{}, {"/d/inc": "in1 'p q'\n# c\n\nin2\n"}, {"inc": "in1\n%pre\nb1\n # b2\n%end\nin2"}, {"inc": "\n# lead\nit's\n  body\n\n"},
         {"inc": "%packages\np1\n"}, {"inc": "b1\n%end\nbad\ncmd z\n"}, {"inc": "%include sub/inc2\nafter\n", "sub/inc2": "c2\n%include inc3\n", "sub/inc3": "deep\n"},
         {"inc": "%include inc2\nrest\n", "inc2": ""}, {"inc": "#!/bin/x\n%end\n"}, {"inc": "%pre\nx\n%end\n"}, {"inc": "%unknown\nu\n%end\n"}, {"inc": "  %end\n"}]
FLAGS = ("errorsAreFatal", "unknownSectionIsFatal", "missingIncludeIsFatal", "followIncludes")


def cfgs():
    for bits in itertools.product((True, False), repeat=4):
        yield dict(zip(FLAGS, bits))


DEFAULT = dict.fromkeys(FLAGS, True)
TOLERANT = dict(DEFAULT, errorsAreFatal=False, unknownSectionIsFatal=False, missingIncludeIsFatal=False)


def cases(part, parts, seed=1, n=6000):
    i = 0
    for k in (1, 2):
        for ls in itertools.product(LINES, repeat=k):
            i += 1
            if i % parts != part:
                continue
            for cfg in (DEFAULT, TOLERANT):
                for v in (5000, 6000, 34000):
                    yield "".join(ls), FILES[3], cfg, v
    for ls in itertools.product(LINES, repeat=2):
        i += 1
        if i % parts != part:
            continue
        for sec in ("%pre\n", "%packages\n", "%unknown x\n"):
            for v in (5000, 6000):
                yield sec + "".join(ls) + "%end\nlast\n", FILES[i % len(FILES)], TOLERANT, v
    for f in FILES:
        for cfg in cfgs():
            for v in (5000, 6000):
                for head in ("", "%pre\n", "%packages\n", "%unknown\n"):
                    i += 1
                    if i % parts == part:
                        yield "a\n" + head + "%include inc\n  x\n%end\nlast\n%pre\nq\n%end", f, cfg, v
    r = random.Random(seed * 1000 + part)
    allc = list(cfgs())
    for _ in range(n // parts):
        ls = [r.choice(LINES) for _ in range(r.randint(3, 12))]
        text = "".join(ls)
        if r.random() < 0.3:
            text = text[:-1]
        if r.random() < 0.1:
            text = text.replace("\n", "\r\n")
        yield text, r.choice(FILES), r.choice(allc), r.choice((5000, 5999, 6000, 33000))


def search(part, parts, seed=1, n=6000):
    for text, files, cfg, v in cases(part, parts, seed, n):
        d = R.differ(text, files, cfg, v)
        if d is None:
            yield None
        else:
            yield ("reading %r%s differs from the specification: %s" % (text, " with %r" % files if files else "", d[0]),
                   {"text": text, "files": files, "configuration": cfg, "version": v, "real": d[1], "specified": d[2]}, "reading")
            return


BODY = ["echo a\n", "\n", "  # c\n", "%foo\n", " it's \"\n", "\t\n", "%end-x\n", "x\\\n", "#!/bin/sh\n", "a  b\u00e9\n"]
HEADS = [("%pre", 0, {}), ("%post", 1, {}), ("%post --nochroot --log=/l", 1, {"inChroot": False, "logfile": "/l"}), ("%pre-install --erroronfail", 3, {"errorOnFail": True}),
         ("%traceback --interpreter=/bin/x", 2, {"interp": "/bin/x"}), ("%onerror --logfile /m", 4, {"logfile": "/m"}), ("%pre --interpreter /usr/bin/python # c", 0, {"interp": "/usr/bin/python"})]


def scripts(seed, n):
    """scripts as the handler gets them"""
    from pykickstart.version import makeVersion
    from pykickstart.parser import KickstartParser
    from pykickstart import constants as K
    r = random.Random(seed)
    kinds = {"%pre": K.KS_SCRIPT_PRE, "%post": K.KS_SCRIPT_POST, "%pre-install": K.KS_SCRIPT_PREINSTALL, "%traceback": K.KS_SCRIPT_TRACEBACK, "%onerror": K.KS_SCRIPT_ONERROR}
    for i in range(n):
        text, want, ln = "", [], 0
        for _ in range(r.randint(1, 4)):
            head, _k, over = r.choice(HEADS)
            body = "".join(r.choice(BODY) for _ in range(r.randint(0, 4)))
            ln += 1
            d = {"interp": "/bin/sh", "inChroot": head.startswith("%post"), "logfile": None, "errorOnFail": False,
                 "type": kinds[head.split()[0]], "lineno": ln, "script": body}
            d.update(over)
            text += head + "\n" + body + "%end\n"
            ln += body.count("\n") + 1
            if body.strip():
                want.append(d)
        h = makeVersion()
        try:
            KickstartParser(h).readKickstartFromString(text)
            got = [{k: getattr(s, k) for k in ("interp", "inChroot", "logfile", "errorOnFail", "type", "lineno", "script")} for s in h.scripts]
        except Exception as e:      # noqa: B902
            got = repr(e)
        if got != want:
            yield ("the scripts read from %r differ from what it says" % text, {"text": text, "scripts": got, "specified": want}, "scripts")
            return
        yield None


def dispatch(n=1):
    """the dispatcher on a real handler: what reaches the command, and what is filed"""
    from pykickstart.base import KickstartHandler, KickstartCommand, BaseData
    from pykickstart.errors import KickstartParseError

    class Data(BaseData):
        pass

    class One(KickstartCommand):
        def __init__(self):
            KickstartCommand.__init__(self, 0)
            self.lst, self.got, self.result = [], [], None

        def dataList(self):
            return self.lst

        def parse(self, args):
            self.got.append((list(args), self.currentCmd, self.currentLine, self.lineno, self.seen))
            if self.result == "fail":
                raise KickstartParseError("x", lineno=self.lineno)
            return self.result

    class Two(One):
        def dataList(self):
            return None
    for cls in (One, Two):
        for name in ("one", "alias", "masked", "none"):
            for args in ([], ["a", "b c"]):
                for result in (None, "data", "self", "fail"):
                    class H(KickstartHandler):
                        version = 1
                    h = H()
                    h.registerCommand("one", cls)
                    h.registerCommand("alias", cls)
                    h.commands["masked"] = None
                    c = h.commands["one"]
                    d = Data()
                    c.result = {"data": d, "self": c, "fail": "fail"}.get(result)
                    h.currentLine = "the line\n"
                    try:
                        r = h.dispatcher([name] + args, 7)
                    except KickstartParseError as e:
                        r = ("error", e.lineno)
                    except Exception as e:      # noqa: B902
                        r = repr(e)
                    known = name in ("one", "alias")
                    want = (("error", 7) if name == "none" or (known and result == "fail") else (c.result if known else None))
                    calls = [(args, name, "the line\n", 7, True)] if known else []
                    filed = [d] if known and result == "data" and cls is One else []
                    if r != want or c.got != calls or c.lst != filed:
                        yield ("dispatching %r (parse result: %s) gives %r with calls %r and filed data %r" % ([name] + args, result, r, c.got, c.lst),
                               {"words": [name] + args, "result": repr(r), "calls": repr(c.got), "filed": repr(c.lst), "specified": repr((want, calls, filed))}, "dispatch")
                        return
                    yield None


def again():
    """a parser that reads another text after one that failed treats it as a new parser does"""
    from pykickstart.version import makeVersion
    from pykickstart.parser import KickstartParser
    heads = ("%pre --log=/l --erroronfail --interpreter=/bin/x", "%post --nochroot", "%addon a b", "%anaconda", "%packages --nobase", "%unknown x", "%traceback")
    cuts = ("secret\n", "secret\n%packages\n%end\n", "secret\n%include\n", "secret\n%end\nnonsense\n")

    def state(h, n):
        return ([(s.script, s.type, s.interp, s.logfile, s.errorOnFail, s.inChroot, s.lineno) for s in h.scripts[n[0]:]],
                h._null_section_strings[n[1]:])
    for a in heads:
        for cut in cuts:
            for b in heads:
                for body in ("", "x\n", "y\n# z\n"):
                    second = b.split()[0] + "\n" + body + "%end\n"
                    h = makeVersion()
                    p = KickstartParser(h, unknownSectionIsFatal=False)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        try:
                            p.readKickstartFromString(a + "\n" + cut)
                        except Exception:      # noqa: B902
                            pass
                        n = len(h.scripts), len(h._null_section_strings)
                        p.readKickstartFromString(second)
                        got = state(h, n)
                        h = makeVersion()
                        KickstartParser(h, unknownSectionIsFatal=False).readKickstartFromString(second)
                    want = state(h, (0, 0))
                    if got != want:
                        yield ("reading %r after %r gives %r instead of %r" % (second, a + "\n" + cut, got, want), {"first": a + "\n" + cut, "second": second, "got": got, "specified": want}, "again")
                        return
                    yield None


def includes():
    """included files on disk: relative names are found beside the including file"""
    import os
    import shutil
    import tempfile
    from pykickstart.version import makeVersion
    from pykickstart.parser import KickstartParser
    from pykickstart.errors import KickstartError
    top = tempfile.mkdtemp(prefix="verif-inc-")
    cwd = os.getcwd()
    try:
        def w(name, text):
            os.makedirs(os.path.join(top, os.path.dirname(name)), exist_ok=True)
            with open(os.path.join(top, name), "w") as f:
                f.write(text)
        w("main.ks", "%include sub/one\nc end\n")
        w("sub/one", "c one\n%include two\n%include deep/three\nc one-end\n")
        w("sub/two", "c two\n")
        w("sub/deep/three", "c three\n%include four\n")
        w("sub/deep/four", "c four\n")
        w("missing.ks", "c a\n%include nothing-here\nc b\n")
        os.makedirs(os.path.join(top, "elsewhere"), exist_ok=True)
        for where, name in ((top, "main.ks"), (os.path.join(top, "elsewhere"), "../main.ks"), ("/", os.path.join(top, "main.ks"))):
            os.chdir(where)
            for fatal in (True, False):
                for f, want in ((name, ["one", "two", "three", "four", "one-end", "end"]), (name.replace("main", "missing"), ["a", "error"] if fatal else ["a", "b"])):
                    h = makeVersion()
                    got = []
                    h.dispatcher = lambda args, lineno: got.append(args[1])
                    try:
                        KickstartParser(h, missingIncludeIsFatal=fatal).readKickstart(f)
                    except KickstartError:
                        got.append("error")
                    except Exception as e:      # noqa: B902
                        got.append(repr(e))
                    if got != want:
                        yield ("reading %s from %s handles %r instead of %r" % (f, where.replace(top, "DIR"), got, want), {"file": f, "got": got, "specified": want}, "includes")
                        return
                    yield None
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)
