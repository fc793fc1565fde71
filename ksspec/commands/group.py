from ksspec.errors import KickstartParseWarning
from ksspec.version import F12
from ksspec.base import BaseData, KickstartCommand
from ksspec.options import KSOptionParser
import warnings
from ksspec.i18n import _

class F12_GroupData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.name = kwargs.get('name', '')
        self.gid = kwargs.get('gid', None)

    def __eq__(self, y):
        if not y:
            return False
        return self.name == y.name

    def __ne__(self, y):
        return not self == y

class F12_Group(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.groupList = kwargs.get('groupList', [])

    def _getParser(self):
        op = KSOptionParser(prog='group')
        op.add_argument('--name', required=True)
        op.add_argument('--gid', type=int)
        return op

    def parse(self, args):
        gd = self.dataClass()
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_obj(ns, gd)
        gd.lineno = self.lineno
        if gd in self.dataList():
            warnings.warn(_('A group with the name %s has already been defined.') % gd.name, KickstartParseWarning)
        return gd

    def dataList(self):
        return self.groupList

    @property
    def dataClass(self):
        return self.handler.GroupData
