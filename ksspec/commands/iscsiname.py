from ksspec.version import FC6
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC6_IscsiName(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=70, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.iscsiname = kwargs.get('iscsiname', '')

    def _getParser(self):
        op = KSOptionParser(prog='iscsiname')
        op.add_argument('iqn', nargs=1)
        return op

    def parse(self, args):
        _ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        assert len(_ns.iqn) == 1
        if extra:
            mapping = {'command': 'iscsiname', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.iscsiname = _ns.iqn[0]
        return self
