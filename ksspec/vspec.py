"""Specification of the version functions (pykickstart/version.py)."""
import re

from ksspec.errors import KickstartVersionError
from ksspec.version import REGISTRY

NUMBERS = REGISTRY["versions"]
NEWEST = NUMBERS["DEVEL"]
FEDORA = r"^fedora.* (\d+)$"
RHEL = r"^red hat enterprise linux.* (\d+)([\.\d]*)$"
REGEXES = (("match", FEDORA, int(re.I)), ("match", RHEL, int(re.I)))


def stringToVersion(s):
    if s.upper() in NUMBERS:
        return NUMBERS[s.upper()]
    m = re.match(FEDORA, s, re.I)
    if m:
        for prefix in ("FC", "F"):
            if prefix + m.group(1) in NUMBERS:
                return NUMBERS[prefix + m.group(1)]
        raise KickstartVersionError("unsupported")
    m = re.match(RHEL, s, re.I)
    if m:
        if "RHEL" + m.group(1) in NUMBERS:
            return NUMBERS["RHEL" + m.group(1)]
    raise KickstartVersionError("unsupported")


def versionToString(version, skipDevel=False):
    if not skipDevel and version == NEWEST:
        return "DEVEL"
    for name, number in NUMBERS.items():
        if name != "DEVEL" and number == version:
            return name
    raise KickstartVersionError("unsupported")


def longName(name):
    if name.startswith("RHEL"):
        return "RedHatEnterpriseLinux" + name[4:]
    if name.startswith("FC"):
        return "Fedora" + name[2:]
    return "Fedora" + name[1:]


def versionToLongString(version):
    return longName(versionToString(version, True))


def versionOfLines(contents):
    for line in contents.splitlines(True):
        if line[:9] == "#version=":
            return stringToVersion(line[9:].rstrip())
    return NEWEST
