from ksspec.version import FC6
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser, commaSplit
from ksspec.i18n import _

class FC6_Services(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.disabled = kwargs.get('disabled', [])
        self.enabled = kwargs.get('enabled', [])

    def _getParser(self):
        op = KSOptionParser(prog='services')
        op.add_argument('--disabled', type=commaSplit)
        op.add_argument('--enabled', type=commaSplit)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if not (self.disabled or self.enabled):
            raise KickstartParseError(_('One of --disabled or --enabled must be provided.'), lineno=self.lineno)
        return self
