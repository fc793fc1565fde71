from ksspec.constants import SECURE_BOOT_AUTO, SECURE_BOOT_ENABLED, SECURE_BOOT_DISABLED, SECURE_BOOT_DEFAULT
from ksspec.version import F32
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class F32_Zipl(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.secure_boot = kwargs.get('secure_boot', SECURE_BOOT_DEFAULT)

    def _getParser(self):
        op = KSOptionParser(prog='zipl')
        op.add_argument('--secure-boot', dest='secure_boot', action='store_const', const=SECURE_BOOT_AUTO)
        op.add_argument('--force-secure-boot', dest='secure_boot', action='store_const', const=SECURE_BOOT_ENABLED)
        op.add_argument('--no-secure-boot', dest='secure_boot', action='store_const', const=SECURE_BOOT_DISABLED)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class RHEL8_Zipl(F32_Zipl):
    pass
