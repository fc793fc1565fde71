from ksspec.version import FC3
from ksspec.base import KickstartCommand
from ksspec.constants import FIRSTBOOT_DEFAULT, FIRSTBOOT_SKIP, FIRSTBOOT_RECONFIG
from ksspec.options import KSOptionParser

class FC3_Firstboot(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.firstboot = kwargs.get('firstboot', None)

    def _getParser(self):
        op = KSOptionParser(prog='firstboot')
        op.add_argument('--disable', '--disabled', dest='firstboot', action='store_const', const=FIRSTBOOT_SKIP)
        op.add_argument('--enable', '--enabled', dest='firstboot', action='store_const', const=FIRSTBOOT_DEFAULT)
        op.add_argument('--reconfig', dest='firstboot', action='store_const', const=FIRSTBOOT_RECONFIG)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.firstboot = ns.firstboot
        return self
