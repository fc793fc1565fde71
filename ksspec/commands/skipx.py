from ksspec.version import FC3
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class FC3_SkipX(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.skipx = kwargs.get('skipx', False)

    def _getParser(self):
        op = KSOptionParser(prog='skipx')
        return op

    def parse(self, args):
        self.op.parse_args(args=args, lineno=self.lineno)
        self.skipx = True
        return self
