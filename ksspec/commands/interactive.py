from ksspec.version import versionToLongString, FC3, F14, F15
from ksspec.base import DeprecatedCommand, KickstartCommand, RemovedCommand
from ksspec.options import KSOptionParser

class FC3_Interactive(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.interactive = kwargs.get('interactive', False)

    def _getParser(self):
        op = KSOptionParser(prog='interactive')
        return op

    def parse(self, args):
        self.op.parse_args(args=args, lineno=self.lineno)
        self.interactive = True
        return self

class F14_Interactive(DeprecatedCommand, FC3_Interactive):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = FC3_Interactive._getParser(self)
        pass
        return op

class F15_Interactive(RemovedCommand, F14_Interactive):

    def _getParser(self):
        op = F14_Interactive._getParser(self)
        pass
        return op
