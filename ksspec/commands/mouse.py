from ksspec.version import versionToLongString, RHEL3, FC3, F7
from ksspec.base import DeprecatedCommand, KickstartCommand, RemovedCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class RHEL3_Mouse(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.device = kwargs.get('device', '')
        self.emulthree = kwargs.get('emulthree', False)
        self.mouse = kwargs.get('mouse', '')

    def _getParser(self):
        op = KSOptionParser(prog='mouse')
        op.add_argument('--device', default='')
        op.add_argument('--emulthree', default=False, action='store_true')
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(extra) != 1:
            raise KickstartParseError(_('Kickstart command %s requires one argument') % 'mouse', lineno=self.lineno)
        elif any((arg for arg in extra if arg.startswith('-'))):
            mapping = {'command': 'mouse', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.set_to_self(ns)
        self.mouse = extra[0]
        return self

class FC3_Mouse(DeprecatedCommand, RHEL3_Mouse):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = RHEL3_Mouse._getParser(self)
        pass
        return op

class F7_Mouse(RemovedCommand, FC3_Mouse):

    def _getParser(self):
        op = FC3_Mouse._getParser(self)
        pass
        return op
