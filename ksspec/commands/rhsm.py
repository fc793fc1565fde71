from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.version import RHEL8
from ksspec.i18n import _

class RHEL8_RHSM(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.organization = kwargs.get('organization', None)
        self.activation_keys = kwargs.get('activation_keys', None)
        self.connect_to_insights = kwargs.get('connect_to_insights', None)
        self.proxy = kwargs.get('proxy', None)
        self.server_hostname = kwargs.get('server_hostname', None)
        self.rhsm_baseurl = kwargs.get('rhsm_baseurl', None)

    def _getParser(self):
        op = KSOptionParser(prog='rhsm')
        op.add_argument('--organization', required=True)
        op.add_argument('--activation-key', action='append', dest='activation_keys', required=True)
        op.add_argument('--connect-to-insights', action='store_true', default=False)
        op.add_argument('--proxy')
        op.add_argument('--server-hostname', required=False)
        op.add_argument('--rhsm-baseurl', required=False)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        for key in ns.activation_keys:
            if key == '':
                raise KickstartParseError(_('Empty string is not a valid activation key.'), lineno=self.lineno)
        self.set_to_self(ns)
        return self
