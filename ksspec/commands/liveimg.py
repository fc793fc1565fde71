from ksspec.version import F19
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class F19_Liveimg(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.checksum = kwargs.get('checksum', '')
        self.noverifyssl = kwargs.get('noverifyssl', None)
        self.proxy = kwargs.get('proxy', None)
        self.url = kwargs.get('url', None)
        self.op = self._getParser()

    def __eq__(self, other):
        if not other:
            return False
        return self.url == other.url and self.proxy == other.proxy and (self.noverifyssl == other.noverifyssl) and (self.checksum == other.checksum)

    def _getParser(self):
        op = KSOptionParser(prog='liveimg')
        op.add_argument('--url', required=True)
        op.add_argument('--proxy')
        op.add_argument('--noverifyssl', action='store_true', default=False)
        op.add_argument('--checksum')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self
