"""The reading machine, one step at a time: ghost objects standing for the collaborators of the parser, and the
specification of one line of the command section, one line of a section, and the functions around them."""
import shlex

from pykickstart.errors import KickstartParseError, KickstartError


class Stream:
    """the lines of one file; pos is the number of lines taken so far (lines put back are taken back)"""
    def __iter__(self):
        return self

    def __next__(self):
        raise NotImplementedError

    next = __next__

    def put(self, line):
        raise NotImplementedError


class Tags:
    """the registered sections"""
    def __getitem__(self, tag):
        raise NotImplementedError

    def __contains__(self, tag):
        raise NotImplementedError

    def __setitem__(self, tag, section):
        raise NotImplementedError

    def __iter__(self):
        raise NotImplementedError

    def keys(self):
        raise NotImplementedError

    def get(self, tag, default=None):
        raise NotImplementedError


class Section:
    def handleHeader(self, lineno, args):
        raise NotImplementedError

    def handleLine(self, line):
        raise NotImplementedError

    def finalize(self):
        raise NotImplementedError


class Handler:
    def dispatcher(self, args, lineno):
        raise NotImplementedError


def report(error):
    raise NotImplementedError


def warn_unknown(tag):
    raise NotImplementedError


def register_ignored(p, tag):
    raise NotImplementedError


F8 = 6000


def attempt(p, f):
    """an error in f is counted; it ends the reading when errors are fatal and is reported otherwise"""
    try:
        f()
    except Exception as e:
        p.errorsCount += 1
        if p.errorsAreFatal:
            raise
        report(e)


def command(p, words, n):
    p.handler.currentLine = p._line
    p.handler.dispatcher(words, n)


def commands_step(p, it):
    """one line outside sections; or the first line of a file included inside a section"""
    try:
        line = next(it)
    except StopIteration:
        return ("stop", None)
    if line == "":
        return ("stop", None)
    n = it.pos
    p._line = line
    blank = line.isspace()
    if p._includeDepth > 0 and not blank and p._state in p._sections:
        it.put(line)
        p._readSection(it, n - 1)
        return ("next", None)
    if blank:
        return ("next", None)
    if line.lstrip()[0] == "#":
        if p._state == "commands" and line[:10] == "#platform=":
            p.handler.platform = line[10:].strip()
        return ("next", None)
    words = shlex.split(line, comments=True)
    if words[0] == "%include":
        if len(words) == 1 or words[1] == "":
            raise KickstartParseError(lineno=n)
        p._handleInclude(words[1])
        return ("next", None)
    if p._state == "end":
        return ("stop", None)
    if words[0] == "%ksappend":
        return ("next", None)
    if words[0][:1] != "%":
        attempt(p, lambda: command(p, words, n))
        return ("next", None)
    tag = words[0]
    if tag not in p._sections:
        if p.unknownSectionIsFatal:
            raise KickstartParseError(lineno=n)
        warn_unknown(tag)
        register_ignored(p, tag)
    p._state = tag
    section = p._sections[tag]
    attempt(p, lambda: section.handleHeader(n, words))
    p._readSection(it, n)
    if p._state != "commands":
        # the end of an included file also ends a section opened in that file
        if p.version >= F8:
            raise KickstartParseError(lineno=it.pos)
        close(p, section)
    return ("next", None)


def close(p, section):
    section.finalize()
    p._state = "commands"


def section_step(p, section, it):
    """one line of the body of a section; the result of reading a section is the number of lines taken so far"""
    try:
        line = next(it)
    except StopIteration:
        return ("stop", it.pos)
    if line == "":
        # the end of the file ends the section, unless the file was included from within the section
        if p._includeDepth == 0:
            if p.version >= F8:
                raise KickstartParseError(lineno=it.pos)
            close(p, section)
        return ("stop", it.pos)
    n = it.pos
    if line.isspace() or line.lstrip()[0] == "#":
        if section.allLines:
            section.handleLine(line)
        return ("next", None)
    if line.lstrip()[0] != "%":
        section.handleLine(line)
        return ("next", None)
    word = line.split()[0]
    if word != "%end" and word != "%include" and word not in p._sections:
        section.handleLine(line)
        return ("next", None)
    words = shlex.split(line)
    if word == "%end":
        close(p, section)
        return ("stop", n)
    if word == "%include":
        if len(words) == 1 or words[1] == "":
            raise KickstartParseError(lineno=n)
        p._handleInclude(words[1])
        # the included file may have closed the section
        return ("stop", it.pos) if p._state == "commands" else ("next", None)
    if p.version >= F8:
        raise KickstartParseError(lineno=n)
    it.put(line)
    close(p, section)
    return ("stop", n - 1)


def handleInclude(p, f):
    if not p.followIncludes:
        return
    p._includeDepth += 1
    state = p._state
    try:
        p.readKickstart(f, reset=False)
    except KickstartError:
        if p.missingIncludeIsFatal:
            raise
        # a section opened in the failed file does not go on behind it
        if p._state != "commands":
            p._state = state
    p._includeDepth -= 1


def readKickstart(p, f, reset, exists, join, dirname, abspath, load):
    if reset:
        p._reset()
    d = p._includeDepth
    if not exists(f) and d - 1 in p.currentdir:
        # a relative name is meant relative to the including file, when it is found there
        if exists(join(p.currentdir[d - 1], f)):
            f = join(p.currentdir[d - 1], f)
    cd = dirname(f)
    if not cd.startswith("/"):
        cd = abspath(cd)
    p.currentdir[d] = cd
    try:
        text = load(f)
    except KickstartError:
        raise KickstartError("Unable to open input kickstart file", lineno=0)
    p.readKickstartFromString(text, reset=False)


def readText(p, text, reset, machine):
    if reset:
        p._state = "commands"
        p._includeDepth = 0
    machine(p, text.splitlines(True) + [""])


def dispatch(handler, words, lineno, isdata):
    name = words[0]
    if name not in handler.commands:
        raise KickstartParseError(lineno=lineno)
    c = handler.commands[name]
    if c is None:
        return None
    c.currentCmd = name
    c.currentLine = handler.currentLine
    c.lineno = lineno
    c.seen = True
    r = c.parse(words[1:])
    filed = c.dataList()
    if isdata(r) and filed is not None:
        filed.append(r)
    return r


def script_of(body, s):
    """what a finished script section hands over: nothing when it is blank, else the lines as they were"""
    if " ".join(body).strip() == "":
        return None
    return {"script": "".join(body), "interp": s["interp"], "inChroot": s["chroot"], "lineno": s["lineno"], "logfile": s["log"],
            "errorOnFail": s["errorOnFail"], "type": s["type"]}
