from ksspec.version import F12, F13, F28, RHEL7
from ksspec.errors import KickstartParseWarning
from ksspec.base import BaseData, KickstartCommand
from ksspec.options import KSOptionParser
import warnings
from ksspec.i18n import _

class F12_FcoeData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.nic = kwargs.get('nic', None)

    def __eq__(self, y):
        if not y:
            return False
        return self.nic == y.nic

    def __ne__(self, y):
        return not self == y

class F13_FcoeData(F12_FcoeData):
    removedKeywords = F12_FcoeData.removedKeywords
    removedAttrs = F12_FcoeData.removedAttrs

    def __init__(self, *args, **kwargs):
        F12_FcoeData.__init__(self, *args, **kwargs)
        self.dcb = kwargs.get('dcb', False)

class RHEL7_FcoeData(F13_FcoeData):
    removedKeywords = F13_FcoeData.removedKeywords
    removedAttrs = F13_FcoeData.removedAttrs

    def __init__(self, *args, **kwargs):
        F13_FcoeData.__init__(self, *args, **kwargs)
        self.autovlan = kwargs.get('autovlan', False)

class F28_FcoeData(F13_FcoeData):
    removedKeywords = F13_FcoeData.removedKeywords
    removedAttrs = F13_FcoeData.removedAttrs

    def __init__(self, *args, **kwargs):
        F13_FcoeData.__init__(self, *args, **kwargs)
        self.autovlan = kwargs.get('autovlan', False)

class RHEL8_FcoeData(F28_FcoeData):
    pass

class F12_Fcoe(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=71, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.fcoe = kwargs.get('fcoe', [])

    def _getParser(self):
        op = KSOptionParser(prog='fcoe')
        op.add_argument('--nic', required=True)
        return op

    def parse(self, args):
        zd = self.dataClass()
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_obj(ns, zd)
        zd.lineno = self.lineno
        if zd in self.dataList():
            warnings.warn(_('A FCOE device with the name %s has already been defined.') % zd.nic, KickstartParseWarning)
        return zd

    def dataList(self):
        return self.fcoe

    @property
    def dataClass(self):
        return self.handler.FcoeData

class F13_Fcoe(F12_Fcoe):
    removedKeywords = F12_Fcoe.removedKeywords
    removedAttrs = F12_Fcoe.removedAttrs

    def _getParser(self):
        op = F12_Fcoe._getParser(self)
        op.add_argument('--dcb', action='store_true', default=False)
        return op

class RHEL7_Fcoe(F13_Fcoe):
    removedKeywords = F13_Fcoe.removedKeywords
    removedAttrs = F13_Fcoe.removedAttrs

    def _getParser(self):
        op = F13_Fcoe._getParser(self)
        op.add_argument('--autovlan', action='store_true', default=False)
        return op

class F28_Fcoe(F13_Fcoe):
    removedKeywords = F13_Fcoe.removedKeywords
    removedAttrs = F13_Fcoe.removedAttrs

    def _getParser(self):
        op = F13_Fcoe._getParser(self)
        op.add_argument('--autovlan', action='store_true', default=False)
        return op

class RHEL8_Fcoe(F28_Fcoe):
    pass
