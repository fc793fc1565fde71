from ksspec.version import FC3
from ksspec.base import KickstartCommand
from ksspec.constants import SELINUX_DISABLED, SELINUX_ENFORCING, SELINUX_PERMISSIVE
from ksspec.options import KSOptionParser

class FC3_SELinux(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.selinux = kwargs.get('selinux', None)

    def _getParser(self):
        op = KSOptionParser(prog='selinux')
        op.add_argument('--disabled', dest='selinux', action='store_const', const=SELINUX_DISABLED)
        op.add_argument('--enforcing', dest='selinux', action='store_const', const=SELINUX_ENFORCING)
        op.add_argument('--permissive', dest='selinux', action='store_const', const=SELINUX_PERMISSIVE)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self
