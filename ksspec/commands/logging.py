from ksspec.version import FC6, F34
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC6_Logging(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.host = kwargs.get('host', '')
        self.level = kwargs.get('level', '')
        self.port = kwargs.get('port', '')
        self._level_provided = bool(self.level)
        if not self._level_provided:
            self.level = 'info'

    def _getParser(self):
        op = KSOptionParser(prog='logging')
        op.add_argument('--host')
        op.add_argument('--port')
        op.add_argument('--level', default='info', choices=['debug', 'info', 'warning', 'error', 'critical'])
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if self.port and (not self.host):
            raise KickstartParseError(_("Can't specify --port without --host."), lineno=self.lineno)
        self._level_provided = True
        return self

class F34_Logging(FC6_Logging):

    def _getParser(self):
        op = super()._getParser()
        op.add_argument('--level')
        return op
