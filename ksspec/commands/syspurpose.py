from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.version import RHEL8
from ksspec.i18n import _

class RHEL8_Syspurpose(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.role = kwargs.get('role', None)
        self.sla = kwargs.get('sla', None)
        self.usage = kwargs.get('usage', None)
        self.addons = kwargs.get('addons', None)

    def _getParser(self):
        op = KSOptionParser(prog='syspurpose')
        op.add_argument('--role', required=False)
        op.add_argument('--sla', required=False)
        op.add_argument('--usage', required=False)
        op.add_argument('--addon', required=False, action='append', dest='addons')
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(extra) > 0:
            msg = _('The syspurpose command does not take positional arguments!')
            raise KickstartParseError(msg, lineno=self.lineno)
        self.set_to_self(ns)
        return self
