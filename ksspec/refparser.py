"""The specification of reading (ksspec.machine) run natively, with recorders in place of handlers and sections."""
import posixpath

from pykickstart.errors import KickstartError, KickstartParseError
from ksspec import machine as S


class Odd(Exception):
    """a failure of a kind of its own, without a message"""


def fails(word):
    if word.startswith("bad"):
        raise KickstartParseError("no good", lineno=99)
    if word.startswith("worse"):
        raise ValueError("worse")
    if word.startswith("odd"):
        raise Odd()


class Lines:
    def __init__(self, text):
        self.lines = text.splitlines(True) + [""]
        self.pos = 0
        self.i = 0

    def __next__(self):
        if self.i == len(self.lines):
            raise StopIteration
        self.i += 1
        line = self.lines[self.i - 1]
        self.pos += line != ""
        return line

    def put(self, line):
        self.i -= 1
        self.pos -= 1


class RecSection:
    def __init__(self, log, tag, allLines):
        self.log, self.sectionOpen, self.allLines = log, tag, allLines

    def handleHeader(self, lineno, args):
        self.log.append(("header", self.sectionOpen, lineno, list(args)))
        if len(args) > 1:
            fails(args[1])

    def handleLine(self, line):
        self.log.append(("line", self.sectionOpen, line))

    def finalize(self):
        self.log.append(("finalize", self.sectionOpen))


class Ignored(RecSection):
    """an ignored section leaves only its text"""
    def __init__(self, p, tag):
        RecSection.__init__(self, [], tag, True)
        self.p, self.body = p, []

    def handleHeader(self, lineno, args):
        self.args, self.body = list(args), []

    def handleLine(self, line):
        self.body.append(line)

    def finalize(self):
        self.p.ignored.append((self.args, "".join(self.body)))
        self.args, self.body = [], []


class RefHandler:
    platform = ""
    currentLine = ""

    def __init__(self, log):
        self.log = log

    def dispatcher(self, args, lineno):
        self.log.append(("dispatch", list(args), lineno, self.currentLine))
        fails(args[0])


TAGS = (("%pre", True), ("%packages", False))


class RefParser:
    """same protocol as the real parser, built from the step specifications"""
    def __init__(self, cfg, version, files, log):
        self.__dict__.update(cfg)
        self.version, self.files, self.log = version, files, log
        self.errorsCount = 0
        self.handler = RefHandler(log)
        self._sections = {t: RecSection(log, t, a) for t, a in TAGS}
        self.ignored = []
        self.currentdir = {}
        self._state, self._includeDepth, self._line = "commands", 0, ""

    def _readSection(self, it, n):
        sec = self._sections[self._state]
        while True:
            k, v = S.section_step(self, sec, it)
            if k == "stop":
                return v

    def _handleInclude(self, f):
        S.handleInclude(self, f)

    def readKickstart(self, f, reset=True):
        S.readKickstart(self, f, reset, lambda x: x in self.files, posixpath.join, posixpath.dirname, posixpath.abspath, self.load)

    def load(self, f):
        if f not in self.files:
            raise KickstartError("no such file")
        return self.files[f]

    def _reset(self):
        self._state, self._includeDepth = "commands", 0

    def readKickstartFromString(self, text, reset=True):
        if reset:
            self._reset()
        it = Lines(text)
        while S.commands_step(self, it)[0] == "next":
            pass


def outcome(run, p, log):
    try:
        run()
        exc = None
    except Exception as e:          # noqa: B902
        exc = (type(e).__name__, getattr(e, "lineno", None) if isinstance(e, KickstartParseError) else None)
    return {"error": exc, "events": log, "errors": p.errorsCount, "platform": p.handler.platform}


def reference(text, files, cfg, version):
    log = []
    p = RefParser(cfg, version, files, log)
    old = S.report, S.warn_unknown, S.register_ignored
    S.report = lambda e: log.append(("report",))
    S.warn_unknown = lambda tag: log.append(("warn",))

    def reg(p_, tag):
        p_._sections[tag] = Ignored(p_, tag)
    S.register_ignored = reg
    try:
        o = outcome(lambda: p.readKickstartFromString(text), p, log)
    finally:
        S.report, S.warn_unknown, S.register_ignored = old
    o["ignored"] = p.ignored
    return o


def real(text, files, cfg, version):
    """the real parser on the same input"""
    import os
    import sys
    import warnings
    import shlex
    from pykickstart import parser as M
    from pykickstart.base import KickstartHandler
    log = []

    class H(KickstartHandler):
        platform = ""

        def __init__(self):
            KickstartHandler.__init__(self)
            self._null_section_strings = []
            self.scripts = []

        def dispatcher(self, args, lineno):
            log.append(("dispatch", list(args), lineno, self.currentLine))
            fails(args[0])
    H.version = version
    h = H()
    saved = M.Script._ver, M.Packages._ver, M.load_to_str, os.path.exists, sys.stderr, warnings.warn

    def load(f, *a, **k):
        if f not in files:
            raise KickstartError("no such file")
        return files[f]

    class Err:
        said = 0

        def write(self, s):
            log.append(("report",))

        def flush(self):
            pass
    try:
        M.load_to_str = load
        os.path.exists = lambda f: f in files
        sys.stderr = Err()
        warnings.warn = lambda *a, **k: log.append(("warn",))
        p = M.KickstartParser(h, **cfg)
        for t, a in TAGS:
            p.registerSection(RecSection(log, t, a))
        o = outcome(lambda: p.readKickstartFromString(text), p, log)
    finally:
        M.Script._ver, M.Packages._ver, M.load_to_str, os.path.exists, sys.stderr, warnings.warn = saved
    ign = []
    for s in h._null_section_strings:
        head, _, rest = s.partition("\n")
        body = rest.rpartition("%end")[0]
        try:
            ign.append((shlex.split(head), body))
        except ValueError:
            ign.append((head, body))
    o["ignored"] = ign
    return o


def differ(text, files, cfg, version):
    a, b = real(text, files, cfg, version), reference(text, files, cfg, version)
    b["ignored"] = [(x, y + "\n" if y and not y.endswith("\n") else y) for x, y in b["ignored"]]
    # the report is one message, whatever its lines
    for o in (a, b):
        ev = []
        for e in o["events"]:
            if not (e == ("report",) and ev and ev[-1] == e):
                ev.append(e)
        o["events"] = ev
    if a == b:
        return None
    for k in ("events", "error", "errors", "platform", "ignored"):
        if a[k] != b[k]:
            return "%s: %r instead of %r" % (k, a[k], b[k]), a, b
