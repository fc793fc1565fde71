from ksspec.version import F19
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser
from ksspec.errors import KickstartParseError
import getopt
import pipes
from ksspec.i18n import _

class F19_Realm(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.join_realm = None
        self.join_args = []
        self.discover_options = []

    def _parseArguments(self, args):
        if self.join_realm:
            raise KickstartParseError(_("The realm command 'join' should only be specified once"), lineno=self.lineno)
        if not args:
            raise KickstartParseError(_('Missing realm command arguments'), lineno=self.lineno)
        command = args[0]
        if command == 'join':
            self._parseJoin(args[1:])
        else:
            raise KickstartParseError(_("Unsupported realm '%s' command") % command, lineno=self.lineno)

    def _parseJoin(self, args):
        try:
            opts, remaining = getopt.getopt(args, '', ('client-software=', 'server-software=', 'membership-software=', 'one-time-password=', 'no-password', 'computer-ou='))
        except getopt.GetoptError as ex:
            raise KickstartParseError(_('Invalid realm arguments: %s') % ex, lineno=self.lineno)
        if len(remaining) != 1:
            raise KickstartParseError(_('Specify only one realm to join'), lineno=self.lineno)
        self.join_realm = remaining[0]
        self.join_args = args
        self.discover_options = []
        supported_discover_options = ('--client-software', '--server-software', '--membership-software')
        for o, a in opts:
            if o in supported_discover_options:
                self.discover_options.append('%s=%s' % (o, a))

    def _getCommandsAsStrings(self):
        commands = []
        if self.join_args:
            args = [pipes.quote(arg) for arg in self.join_args]
            commands.append('realm join ' + ' '.join(args))
        return commands

    def parse(self, args):
        self._parseArguments(args)
        return self

    def _getParser(self):
        return KSOptionParser(prog='realm')
