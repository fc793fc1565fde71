"""Symbolic execution of command parse() / __str__ for every command class of every version."""
import os
import warnings
import z3

from .values import *          # noqa: F401,F403
from . import interp as I
from . import argp

warnings.simplefilter("ignore")
PKGS = ("pykickstart", "ksspec")
IGNORED = ("op", "handler", "currentCmd", "currentLine", "seen", "preceededInclude", "writePriority")


def all_classes():
    """{cls: dict(cls, aliases, versions)} distinct command classes"""
    from pykickstart.version import versionMap
    from pykickstart.handlers.control import commandMap
    out = {}
    for vname, v in versionMap.items():
        for cmd, cls in commandMap.get(v, {}).items():
            r = out.setdefault(cls, {"cls": cls, "aliases": [], "versions": []})
            if cmd not in r["aliases"]:
                r["aliases"].append(cmd)
            if v not in r["versions"]:
                r["versions"].append(v)
    return out


def real_handler(version):
    from pykickstart.version import returnClassForVersion
    return returnClassForVersion(version)()


def spec_handler(version):
    from ksspec.base import SpecHandler
    return SpecHandler(version)


def new_ip():
    ip = I.Interp()
    argp.install(ip)
    ip.trace_warn = False
    ip.inline_ok = lambda fn: (fn.__module__ or "").split(".")[0] in PKGS
    return ip


class Ctx:
    """one symbolic context for a command under a version; real and spec contexts may share an Interp, in
    which case they read the same symbolic command line"""
    def __init__(self, version, alias, ip=None, spec=False, dom=None, grammar=False, seen=False, havoc=None):
        self.version, self.alias = version, alias
        self.ip = ip = ip or new_ip()
        if dom is not None:
            ip.raw_dom = dom
        self.handler = spec_handler(version) if spec else real_handler(version)
        self.cmd = self.handler.commands[alias]
        self.cls = type(self.cmd)
        self.L = z3.Int("lineno")
        st = I.St()
        st.envs[0] = {}
        self.ref = ip.lift(self.cmd)
        h = ip.get(st, self.ref)
        h = h.set("lineno", SInt(self.L)).set("currentCmd", alias).set("currentLine", sym_str("currentLine"))
        ip.base[self.ref.id] = h
        if seen:
            hd = ip.get(st, ip.lift(self.handler))
            done = set()
            for name, r in ip.get(st, hd.attrs["commands"]).d.items():
                if not isinstance(r, Ref) or r.id == self.ref.id or r.id in done:
                    continue
                done.add(r.id)
                hh = ip.get(st, r)
                if "seen" in hh.attrs:
                    names = sorted(n for n, o in self.handler.commands.items() if o is self.handler.commands[name])
                    ip.base[r.id] = hh.set("seen", SBool(z3.Bool("seen:" + names[0])))
        if havoc:
            havoc(self, st)
        self.st = st
        seq = ip.seq("args", ANY if dom is None else Dom(no=PLAIN.no, nonempty=True))
        self.nargs = z3.Int("nargs")
        ip.sym_items = (Star(True, seq, seq.val),)
        ip.bad_grammar = z3.Bool("badgrammar") if grammar else False

    def _call(self, st, f, args):
        ip = self.ip
        ip.coll.append([])
        try:
            res = ip.call(st, f, args, {})
        finally:
            rs = ip.coll.pop()
        return res, rs

    def parse(self, st=None):
        """-> (normal [(st, ret)], raises [(st, exc)])"""
        ip = self.ip
        st = (st or self.st).fork()
        a = ip.new(st, HList(ip.sym_items))
        return self._call(st, I.Bound(type(self.cmd).parse, self.ref), [a])

    def reparse(self, st, ref, words):
        ip = self.ip
        st = st.fork()
        a = ip.new(st, HList(words))
        return self._call(st, I.Bound(ip.get(st, ref).cls.parse, ref), [a])

    def render(self, st, ref):
        return self._call(st, I.Bound(self.ip.get(st, ref).cls.__str__, ref), [])


def groups():
    """distinct (real class, spec class, alias, data classes, related commands) with representative versions"""
    from ksspec.version import REGISTRY
    from ksspec.base import get_class
    from pykickstart.handlers.control import commandMap, dataMap
    out = {}
    for v in sorted(int(k) for k in REGISTRY["commands"]):
        if v not in commandMap:
            continue
        for alias, (mod, cn) in sorted(REGISTRY["commands"][str(v)].items()):
            real = commandMap[v].get(alias)
            names = tuple(n for n in ("mount", "reqpart", "autopart", "partition", "raid", "volgroup", "logvol", "method") if n in commandMap[v])
            rd = tuple(sorted((n, k) for n, k in ((n, k.__qualname__) for n, k in dataMap.get(v, {}).items())
                              if real is not None and k.split("_")[-1][:4] == real.__name__.split("_")[-1][:4]))
            key = (real, mod, cn, alias, rd, names if cn.split("_")[-1] in ("Mount", "AutoPart", "ReqPart", "Partition", "Raid", "VolGroup", "LogVol", "BTRFS", "Snapshot") else ())
            out.setdefault(key, []).append(v)
    only = os.environ.get("VERIF_ONLY")         # development aid: one command module
    return [{"alias": k[3], "real": k[0], "spec": (k[1], k[2]), "versions": vs} for k, vs in out.items()
            if not only or k[1].split(".")[-1] == only]
