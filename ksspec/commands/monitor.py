from ksspec.version import FC3, FC6, F10, F18, versionToLongString
from ksspec.base import DeprecatedCommand, KickstartCommand, RemovedCommand
from ksspec.options import KSOptionParser

class FC3_Monitor(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.hsync = kwargs.get('hsync', '')
        self.monitor = kwargs.get('monitor', '')
        self.vsync = kwargs.get('vsync', '')

    def _getParser(self):
        op = KSOptionParser(prog='monitor')
        op.add_argument('--hsync')
        op.add_argument('--monitor')
        op.add_argument('--vsync')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class FC6_Monitor(FC3_Monitor):
    removedKeywords = FC3_Monitor.removedKeywords
    removedAttrs = FC3_Monitor.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_Monitor.__init__(self, writePriority, *args, **kwargs)
        self.probe = kwargs.get('probe', True)

    def _getParser(self):
        op = FC3_Monitor._getParser(self)
        op.add_argument('--noprobe', dest='probe', action='store_false', default=True)
        return op

class F10_Monitor(DeprecatedCommand, FC6_Monitor):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = FC6_Monitor._getParser(self)
        pass
        return op

class F18_Monitor(RemovedCommand, F10_Monitor):

    def _getParser(self):
        op = F10_Monitor._getParser(self)
        pass
        return op
