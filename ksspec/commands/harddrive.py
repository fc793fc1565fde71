from ksspec.version import FC3, F33
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_HardDrive(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.biospart = kwargs.get('biospart', None)
        self.partition = kwargs.get('partition', None)
        self.dir = kwargs.get('dir', None)
        self.op = self._getParser()
        self.deleteRemovedAttrs()

    def __eq__(self, other):
        if not other:
            return False
        return self.biospart == other.biospart and self.partition == other.partition and (self.dir == other.dir)

    def __ne__(self, other):
        return not self == other

    def _getParser(self):
        op = KSOptionParser(prog='harddrive')
        op.add_argument('--biospart')
        op.add_argument('--partition')
        op.add_argument('--dir', required=True)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if self.biospart is None and self.partition is None or (self.biospart is not None and self.partition is not None):
            raise KickstartParseError(_('One of biospart or partition options must be specified.'), lineno=self.lineno)
        return self

class F33_HardDrive(FC3_HardDrive):
    removedKeywords = KickstartCommand.removedKeywords + ['biospart']
    removedAttrs = KickstartCommand.removedAttrs + ['biospart']

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_HardDrive.__init__(self, writePriority, *args, **kwargs)

    def __eq__(self, other):
        if not other:
            return False
        return self.partition == other.partition and self.dir == other.dir

    def _getParser(self):
        op = FC3_HardDrive._getParser(self)
        op.remove_argument('--biospart')
        op.add_argument('--partition', required=True)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self
