from ksspec.errors import KickstartParseWarning
from ksspec.version import FC6, F8, F12, F19, F24
from ksspec.base import BaseData, KickstartCommand
from ksspec.options import KSOptionParser, commaSplit
import warnings
import six
from ksspec.i18n import _

class FC6_UserData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.groups = kwargs.get('groups', [])
        self.homedir = kwargs.get('homedir', '')
        self.isCrypted = kwargs.get('isCrypted', False)
        self.name = kwargs.get('name', '')
        self.password = kwargs.get('password', '')
        self.shell = kwargs.get('shell', '')
        self.uid = kwargs.get('uid', None)

    def __eq__(self, y):
        if not y:
            return False
        return self.name == y.name

    def __ne__(self, y):
        return not self == y

class F8_UserData(FC6_UserData):
    removedKeywords = FC6_UserData.removedKeywords
    removedAttrs = FC6_UserData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC6_UserData.__init__(self, *args, **kwargs)
        self.lock = kwargs.get('lock', False)

class F12_UserData(F8_UserData):
    removedKeywords = F8_UserData.removedKeywords
    removedAttrs = F8_UserData.removedAttrs

    def __init__(self, *args, **kwargs):
        F8_UserData.__init__(self, *args, **kwargs)
        self.gecos = kwargs.get('gecos', '')

class F19_UserData(F12_UserData):
    removedKeywords = F12_UserData.removedKeywords
    removedAttrs = F12_UserData.removedAttrs

    def __init__(self, *args, **kwargs):
        F12_UserData.__init__(self, *args, **kwargs)
        self.gid = kwargs.get('gid', None)

class FC6_User(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.userList = kwargs.get('userList', [])

    def _getParser(self):
        op = KSOptionParser(prog='user')
        op.add_argument('--groups', type=commaSplit)
        op.add_argument('--homedir')
        op.add_argument('--iscrypted', dest='isCrypted', action='store_true', default=False)
        op.add_argument('--name', required=True)
        op.add_argument('--password')
        op.add_argument('--shell')
        op.add_argument('--uid', type=int)
        return op

    def parse(self, args):
        ud = self.dataClass()
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_obj(ns, ud)
        ud.lineno = self.lineno
        if ud in self.dataList():
            warnings.warn(_('A user with the name %s has already been defined.') % ud.name, KickstartParseWarning)
        return ud

    def dataList(self):
        return self.userList

    @property
    def dataClass(self):
        return self.handler.UserData

class F8_User(FC6_User):
    removedKeywords = FC6_User.removedKeywords
    removedAttrs = FC6_User.removedAttrs

    def _getParser(self):
        op = FC6_User._getParser(self)
        op.add_argument('--lock', action='store_true', default=False)
        op.add_argument('--plaintext', dest='isCrypted', action='store_false')
        return op

class F12_User(F8_User):
    removedKeywords = F8_User.removedKeywords
    removedAttrs = F8_User.removedAttrs

    def _getParser(self):
        op = F8_User._getParser(self)
        op.add_argument('--gecos')
        return op

class F19_User(F12_User):
    removedKeywords = F12_User.removedKeywords
    removedAttrs = F12_User.removedAttrs

    def _getParser(self):
        op = F12_User._getParser(self)
        op.add_argument('--gid', type=int)
        return op

class F24_User(F19_User):
    removedKeywords = F19_User.removedKeywords
    removedAttrs = F19_User.removedAttrs

    def _getParser(self):
        op = F19_User._getParser(self)
        op.add_argument('--groups', type=commaSplit)
        return op
