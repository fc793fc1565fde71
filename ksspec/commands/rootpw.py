from ksspec.version import FC3, F8
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _
import six

class FC3_RootPw(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.isCrypted = kwargs.get('isCrypted', False)
        self.password = kwargs.get('password', '')

    def _getParser(self):
        op = KSOptionParser(prog='rootpw')
        op.add_argument('password', nargs='?')
        op.add_argument('--iscrypted', dest='isCrypted', action='store_true', default=False)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if not ns.password:
            raise KickstartParseError(_('A single argument is expected for the %s command') % 'rootpw', lineno=self.lineno)
        elif extra:
            mapping = {'command': 'rootpw', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class F8_RootPw(FC3_RootPw):
    removedKeywords = FC3_RootPw.removedKeywords
    removedAttrs = FC3_RootPw.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_RootPw.__init__(self, writePriority, *args, **kwargs)
        self.lock = kwargs.get('lock', False)

    def _getParser(self):
        op = FC3_RootPw._getParser(self)
        op.add_argument('--lock', action='store_true', default=False)
        op.add_argument('--plaintext', dest='isCrypted', action='store_false')
        return op

class F18_RootPw(F8_RootPw):
    removedKeywords = F8_RootPw.removedKeywords
    removedAttrs = F8_RootPw.removedAttrs

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if not (ns.password or ns.lock):
            raise KickstartParseError(_('A single argument is expected for the %s command') % 'rootpw', lineno=self.lineno)
        elif extra:
            mapping = {'command': 'rootpw', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.set_to_self(ns)
        return self
