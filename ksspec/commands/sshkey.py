from ksspec.version import F22
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser
import warnings
from ksspec.i18n import _

class F22_SshKeyData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.username = kwargs.get('username', None)
        self.key = kwargs.get('key', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.username == y.username

    def __ne__(self, y):
        return not self == y

class F22_SshKey(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.sshUserList = kwargs.get('sshUserList', [])

    def _getParser(self):
        op = KSOptionParser(prog='sshkey')
        op.add_argument('--username', required=True)
        op.add_argument('sshkey', nargs=1)
        return op

    def parse(self, args):
        ud = self.dataClass()
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        assert len(ns.sshkey) == 1
        if extra:
            mapping = {'command': 'sshkey', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.set_to_obj(ns, ud)
        ud.key = ns.sshkey[0]
        ud.lineno = self.lineno
        if ud in self.dataList():
            warnings.warn(_('An ssh user with the name %s has already been defined.') % ud.username, KickstartParseWarning)
        return ud

    def dataList(self):
        return self.sshUserList

    @property
    def dataClass(self):
        return self.handler.SshKeyData
