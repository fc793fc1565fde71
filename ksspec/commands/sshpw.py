from ksspec.version import F13, F24
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser
import warnings
from ksspec.i18n import _

class F13_SshPwData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.username = kwargs.get('username', None)
        self.isCrypted = kwargs.get('isCrypted', False)
        self.password = kwargs.get('password', '')
        self.lock = kwargs.get('lock', False)

    def __eq__(self, y):
        if not y:
            return False
        return self.username == y.username

    def __ne__(self, y):
        return not self == y

class F24_SshPwData(F13_SshPwData):
    removedKeywords = F13_SshPwData.removedKeywords
    removedAttrs = F13_SshPwData.removedAttrs

    def __init__(self, *args, **kwargs):
        F13_SshPwData.__init__(self, *args, **kwargs)
        self.sshkey = kwargs.get('sshkey', False)

class F13_SshPw(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.sshUserList = kwargs.get('sshUserList', [])

    def _getParser(self):
        op = KSOptionParser(prog='sshpw')
        op.add_argument('--username', required=True)
        op.add_argument('--iscrypted', dest='isCrypted', action='store_true', default=False)
        op.add_argument('--plaintext', dest='isCrypted', action='store_false')
        op.add_argument('--lock', action='store_true', default=False)
        op.add_argument('password', nargs='*')
        return op

    def parse(self, args):
        ud = self.dataClass()
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if not ns.password:
            raise KickstartParseError(_('A single argument is expected for the %s command') % 'sshpw', lineno=self.lineno)
        if extra:
            mapping = {'command': 'sshpw', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.set_to_obj(ns, ud)
        ud.password = ' '.join(ns.password)
        ud.lineno = self.lineno
        if ud in self.dataList():
            warnings.warn(_('An ssh user with the name %s has already been defined.') % ud.username, KickstartParseWarning)
        return ud

    def dataList(self):
        return self.sshUserList

    @property
    def dataClass(self):
        return self.handler.SshPwData

class F24_SshPw(F13_SshPw):
    removedKeywords = F13_SshPw.removedKeywords
    removedAttrs = F13_SshPw.removedAttrs

    def _getParser(self):
        op = F13_SshPw._getParser(self)
        op.add_argument('--sshkey', action='store_true', default=False)
        return op
