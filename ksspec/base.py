"""Specification of the command base classes."""
import importlib
import warnings
from ksspec.errors import KickstartParseError, KickstartDeprecationWarning
from ksspec.ko import KickstartObject
from ksspec.version import REGISTRY


class BaseData(KickstartObject):
    removedKeywords = []
    removedAttrs = []

    def __init__(self, *args, **kwargs):
        KickstartObject.__init__(self, *args, **kwargs)
        self.lineno = 0

    def deleteRemovedAttrs(self):
        for attr in [k for k in self.removedAttrs if hasattr(self, k)]:
            delattr(self, attr)


class KickstartCommand(KickstartObject):
    removedKeywords = []
    removedAttrs = []

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartObject.__init__(self, *args, **kwargs)
        self.writePriority = writePriority
        self.currentCmd = ""
        self.currentLine = ""
        self.handler = None
        self.lineno = 0
        self.seen = False

    def parse(self, args):
        raise TypeError("parse() not implemented for KickstartCommand")

    def dataList(self):
        return None

    @property
    def dataClass(self):
        return None

    def deleteRemovedAttrs(self):
        for attr in [k for k in self.removedAttrs if hasattr(self, k)]:
            delattr(self, attr)

    def set_to_self(self, namespace):
        self.set_to_obj(namespace, self)

    def set_to_obj(self, namespace, obj):
        for (key, val) in vars(namespace).items():
            if val is not None:
                setattr(obj, key, val)


class DeprecatedCommand(KickstartCommand):
    def __init__(self, writePriority=None, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)

    def dataList(self):
        return None

    @property
    def dataClass(self):
        return None

    def parse(self, args):
        warnings.warn("deprecated", KickstartDeprecationWarning)


class RemovedCommand(KickstartCommand):
    def __init__(self, writePriority=None, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)

    def dataList(self):
        return None

    @property
    def dataClass(self):
        return None

    def parse(self, args):
        raise KickstartParseError("removed", lineno=self.lineno)


def get_class(mod, name):
    return getattr(importlib.import_module("ksspec.commands." + mod), name)


class SpecHandler(KickstartObject):
    """all commands of one version"""
    def __init__(self, version):
        KickstartObject.__init__(self)
        self.version = version
        self.currentLine = ""
        self.commands = {}
        for name, (mod, cls) in REGISTRY["data"][str(version)].items():
            setattr(self, name, get_class(mod, cls))
        objs = {}
        for name, (mod, cls) in REGISTRY["commands"][str(version)].items():
            k = get_class(mod, cls)
            if k not in objs:
                objs[k] = k()
                objs[k].handler = self
            self.commands[name] = objs[k]
            setattr(self, name, objs[k])
