"""Specification of the section headers, of the scripts made from the sections, and of the written sections."""
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.version import F7, F8, F9, F18, F21, F22, F24, F32, RHEL6, RHEL7

KINDS = {"%pre": 0, "%post": 1, "%traceback": 2, "%pre-install": 3, "%onerror": 4}
CLASSES = {"%pre": "PreScriptSection", "%post": "PostScriptSection", "%traceback": "TracebackScriptSection",
           "%pre-install": "PreInstallScriptSection", "%onerror": "OnErrorScriptSection"}


def script_parser(kind):
    op = KSOptionParser(prog=kind)
    op.add_argument("--erroronfail", action="store_true", default=False)
    op.add_argument("--interpreter", default="/bin/sh")
    op.add_argument("--log", "--logfile", dest="log")
    if kind == "%post":
        op.add_argument("--nochroot", action="store_true", default=False)
    return op


class Script:
    """what a script section knows between its header and its end"""


def script_header(s, op, kind, number, args, lineno):
    ns = op.parse_args(args=args, lineno=lineno)
    s.interp = ns.interpreter
    s.log = ns.log
    s.errorOnFail = ns.erroronfail
    s.chroot = kind == "%post" and not ns.nochroot
    s.type = number
    s.lineno = lineno
    s.body = []


def packages_parser(version):
    op = KSOptionParser(prog="%packages")
    op.add_argument("--excludedocs", action="store_true", default=False)
    op.add_argument("--ignoremissing", action="store_true", default=False)
    if version < F9:
        op.add_argument("--ignoredeps", dest="resolveDeps", action="store_false")
        op.add_argument("--resolvedeps", dest="resolveDeps", action="store_true")
    if version >= F7:
        op.add_argument("--default", action="store_true", default=False)
    if version >= F9:
        op.add_argument("--instLangs", "--inst-langs", dest="langs")
    if version >= RHEL6 and version < F22:
        op.add_argument("--nobase", action="store_true", default=False)
    if version >= F18:
        op.add_argument("--multilib", action="store_true", default=False)
    if version >= F21:
        op.add_argument("--nocore", action="store_true", default=False)
    if version >= RHEL7:
        op.add_argument("--timeout", type=int)
        op.add_argument("--retries", type=int)
    if version >= F24:
        op.add_argument("--excludeWeakdeps", "--exclude-weakdeps", dest="weak", action="store_true", default=False)
    if version >= F32:
        op.add_argument("--ignorebroken", action="store_true", default=False)
    return op


class Selection:
    """the package selection"""


def packages_header(p, op, version, args, lineno, ignore, prompt, ignore_broken, report_broken):
    ns = op.parse_args(args=args, lineno=lineno)
    p.seen = True
    p.excludeDocs = ns.excludedocs
    p.handleMissing = ignore if ns.ignoremissing else prompt
    if version >= F7:
        if ns.default:
            p.default = True
        if version >= RHEL6 and version < F22:
            if ns.default and ns.nobase:
                raise KickstartParseError("--default and --nobase")
        if version >= F21:
            if ns.default and ns.nocore:
                raise KickstartParseError("--default and --nocore")
    if version >= F9:
        if ns.langs is not None:
            p.instLangs = ns.langs
    if version >= RHEL6:
        p.addBase = True
        if version < F22:
            p.addBase = not ns.nobase
    if version >= F18:
        p.multiLib = ns.multilib
    if version >= F21:
        p.nocore = ns.nocore
    if version >= RHEL7:
        p.timeout = ns.timeout
        p.retries = ns.retries
    if version >= F24:
        p.excludeWeakdeps = ns.weak
    if version >= F32:
        p.handleBroken = ignore_broken if ns.ignorebroken else report_broken


def ends_with_marker(version):
    return version >= F8


def with_end(text):
    """a text as whole lines"""
    if text.endswith("\n"):
        return text
    return text + "\n"


def joined(lines):
    return "".join(lines)


def blank(lines):
    return "".join(lines).strip() == ""


def joined_text(commands, scripts, passed, packages):
    text = commands
    for s in scripts:
        text += s
    if passed:
        text += "\n"
        for s in passed:
            text += s
    return text + packages


def passed_body(lines):
    text = "".join(lines)
    if text and not text.endswith("\n"):
        return text + "\n"
    return text
