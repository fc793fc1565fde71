from ksspec.version import FC3, F34, versionToLongString
from ksspec.base import KickstartCommand, DeprecatedCommand
from ksspec.options import KSOptionParser

class FC3_AutoStep(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.autostep = kwargs.get('autostep', False)
        self.autoscreenshot = kwargs.get('autoscreenshot', False)

    def _getParser(self):
        op = KSOptionParser(prog='autostep')
        op.add_argument('--autoscreenshot', action='store_true', default=False)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        self.autostep = True
        return self

class F34_AutoStep(DeprecatedCommand, FC3_AutoStep):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = FC3_AutoStep._getParser(self)
        pass
        return op
