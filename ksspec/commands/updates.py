from textwrap import dedent
from ksspec.version import F7, F34, versionToLongString
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class F7_Updates(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.url = kwargs.get('url', '')

    def _getParser(self):
        op = KSOptionParser(prog='updates')
        op.add_argument('updates', nargs='*')
        return op

    def parse(self, args):
        _ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(_ns.updates) > 1:
            raise KickstartParseError(_('Kickstart command %s only takes one argument') % 'updates', lineno=self.lineno)
        elif extra:
            mapping = {'command': 'updates', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        elif not _ns.updates:
            self.url = 'floppy'
        else:
            self.url = _ns.updates[0]
        return self

class F34_Updates(F7_Updates):
    removedKeywords = F7_Updates.removedKeywords
    removedAttrs = F7_Updates.removedAttrs

    def _getParser(self):
        op = KSOptionParser(prog='updates')
        url_action = op.add_argument('url')
        pass
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self
