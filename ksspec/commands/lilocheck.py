from ksspec.version import FC3, FC4, versionToLongString
from ksspec.base import KickstartCommand, RemovedCommand
from ksspec.options import KSOptionParser

class FC3_LiloCheck(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.check = kwargs.get('check', False)

    def _getParser(self):
        op = KSOptionParser(prog='lilocheck')
        return op

    def parse(self, args):
        self.op.parse_args(args=args, lineno=self.lineno)
        self.check = True
        return self

class FC4_LiloCheck(RemovedCommand, FC3_LiloCheck):

    def _getParser(self):
        op = FC3_LiloCheck._getParser(self)
        pass
        return op
