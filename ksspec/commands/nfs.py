from ksspec.version import FC3, FC6
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class FC3_NFS(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.server = kwargs.get('server', None)
        self.dir = kwargs.get('dir', None)
        self.op = self._getParser()

    def __eq__(self, other):
        if not other:
            return False
        return self.server == other.server and self.dir == other.dir

    def __ne__(self, other):
        return not self == other

    def _getParser(self):
        op = KSOptionParser(prog='nfs')
        op.add_argument('--server', required=True)
        op.add_argument('--dir', required=True)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class FC6_NFS(FC3_NFS):
    removedKeywords = FC3_NFS.removedKeywords
    removedAttrs = FC3_NFS.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_NFS.__init__(self, writePriority, *args, **kwargs)
        self.opts = kwargs.get('opts', None)

    def __eq__(self, other):
        if not FC3_NFS.__eq__(self, other):
            return False
        return self.opts == other.opts

    def _getParser(self):
        op = FC3_NFS._getParser(self)
        op.add_argument('--opts')
        return op
