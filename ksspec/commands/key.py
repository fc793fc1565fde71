from ksspec.version import RHEL5
from ksspec.base import KickstartCommand
from ksspec.constants import KS_INSTKEY_SKIP
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class RHEL5_Key(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.key = kwargs.get('key', '')
        self.skip = kwargs.get('skip', False)

    def _getParser(self):
        op = KSOptionParser(prog='key')
        op.add_argument('--skip', action='store_true', default=False)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if self.skip:
            self.key = KS_INSTKEY_SKIP
        elif len(extra) != 1:
            raise KickstartParseError(_('Kickstart command %s requires one argument') % 'key', lineno=self.lineno)
        elif any((arg for arg in extra if arg.startswith('-'))):
            mapping = {'command': 'key', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        else:
            self.key = extra[0]
        return self
