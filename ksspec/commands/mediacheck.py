from ksspec.version import FC4
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class FC4_MediaCheck(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.mediacheck = kwargs.get('mediacheck', False)

    def _getParser(self):
        op = KSOptionParser(prog='mediacheck')
        return op

    def parse(self, args):
        self.op.parse_args(args=args, lineno=self.lineno)
        self.mediacheck = True
        return self
