"""Specification of the package selection."""
from pykickstart.errors import KickstartParseError


def classify(line):
    """what a line of the section mentions"""
    core = line.strip()
    if core.startswith("@^"):
        return ("environment", core[2:])
    if core.startswith("@"):
        return ("group", core[1:])
    if core.startswith("-@^"):
        return ("not environment", core[3:])
    if core.startswith("-@"):
        return ("not group", " ".join(core[2:].split()))
    if core == "-":
        raise KickstartParseError("no name")
    if core.startswith("-"):
        return ("not package", core[1:])
    return ("package", core)


def group(op, text, required, whole, default):
    """-> (name, how much of the group)"""
    ns, words = op.parse_known_args(args=text.split())
    if ns.nodefaults and ns.optional:
        raise KickstartParseError("both")
    name = " ".join(words)
    if ns.nodefaults:
        return (name, required)
    if ns.optional:
        return (name, whole)
    return (name, default)


class Selection:
    """the whole history, run natively as the oracle of the search"""
    def __init__(self):
        self.packages = {}          # name -> selected?
        self.groups = {}            # name -> include
        self.excluded_groups = []
        self.environment = None

    def line(self, text):
        core = text.partition("#")[0]
        kind, name = classify(core)
        if kind == "environment":
            self.environment = name
            self.excluded_groups = [g for g in self.excluded_groups if g != group_name(name)]
        elif kind == "group":
            words, opts = [], set()
            rest = False
            for w in name.split():
                if w in ("--nodefaults", "--optional"):
                    opts.add(w)
                else:
                    words.append(w)
            if len(opts) == 2:
                raise KickstartParseError("both")
            n = " ".join(words)
            self.excluded_groups = [g for g in self.excluded_groups if g != n]
            if n not in self.groups:
                self.groups[n] = {"--nodefaults": 0, "--optional": 2}.get("".join(opts), 1)
        elif kind == "not environment":
            if self.environment == name:
                self.environment = None
            else:
                n = " ".join(("^" + name).split())
                self.excluded_groups.append(n)
                self.groups.pop(n, None)
        elif kind == "not group":
            self.excluded_groups.append(name)
            self.groups.pop(name, None)
        else:
            self.packages[name] = kind == "package"


def group_name(environment):
    return " ".join(("^" + environment).split())


class Handler:
    pass


def stripped(text):
    return text.strip()
