from ksspec.version import RHEL6
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class RHEL6_UnsupportedHardware(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.unsupported_hardware = kwargs.get('unsupported_hardware', False)

    def _getParser(self):
        op = KSOptionParser(prog='unsupported_hardware')
        return op

    def parse(self, args):
        self.op.parse_args(args=args, lineno=self.lineno)
        self.unsupported_hardware = True
        return self
