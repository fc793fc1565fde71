"""Specification of loading and preprocessing."""
from pykickstart.errors import KickstartError, KickstartParseError


# ------------------------------------------------------------------ ghost objects
class File:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def close(self):
        raise NotImplementedError

    def read(self):
        raise NotImplementedError

    def write(self, text):
        raise NotImplementedError


class Bytes:
    def decode(self, encoding="utf-8"):
        raise NotImplementedError


class Response:
    pass


class Lines:
    """the lines of a text, one after the other"""
    def __iter__(self):
        return self

    def __next__(self):
        raise NotImplementedError


# ------------------------------------------------------------------ loading
def is_url(location):
    return "://" in location


def load_to_str(location, url_text, file_text):
    """the text at the location; the failures are those of the two ways to get it"""
    if is_url(location):
        return url_text(location)
    return file_text(location)


def load_to_file(location, destination, url_text, write, copy):
    if is_url(location):
        text = url_text(location)
        try:
            write(destination, text)
        except IOError:
            raise KickstartError("error writing")
    else:
        copy(location, destination)
    return destination


def file_text(f, read):
    try:
        return read(f)
    except (IOError, UnicodeDecodeError):
        raise KickstartError("cannot read")


def copy_file(f, destination, copy):
    try:
        copy(f, destination)
    except (IOError, OSError):
        raise KickstartError("cannot copy")


def url_text(location, get, failure, verify, ok):
    try:
        r = get(location, verify=verify)
    except failure:
        raise KickstartError("cannot get")
    if r.status_code != ok:
        raise KickstartError("bad status")
    return r.text


# ------------------------------------------------------------------ preprocessing
def preprocess_step(it, done, load):
    """one line -> (what to do next, the text so far)"""
    try:
        line = next(it)
    except StopIteration:
        return ("stop", done)
    if line == "":
        return ("stop", done)
    n = it.pos
    core = line.strip()
    if not core.startswith("%ksappend"):
        return ("next", done + line)
    words = core.split()
    if len(words) < 2:
        raise KickstartParseError("no file", lineno=n)
    try:
        text = load(words[1])
    except KickstartError:
        raise KickstartError("cannot append", lineno=n)
    return ("next", done + text)


def from_string(s, preprocess):
    return preprocess(s.splitlines(True))


def from_file(f, load, preprocess):
    try:
        text = load(f)
    except KickstartError:
        raise KickstartError("cannot open", lineno=0)
    return preprocess(text.splitlines(True))


def to_temporary(text, write):
    """the name of a new file with the text; no file for no text"""
    if text:
        return write(text)
    return None


def preprocess(lines, load):
    """the whole of it, run natively as the oracle of the search"""
    out = ""
    for n, line in enumerate(lines, 1):
        if line == "":
            break
        core = line.strip()
        if core.startswith("%ksappend"):
            words = core.split()
            if len(words) < 2:
                raise KickstartParseError("no file", lineno=n)
            try:
                out += load(words[1])
            except KickstartError:
                raise KickstartError("cannot append", lineno=n)
        else:
            out += line
    return out
