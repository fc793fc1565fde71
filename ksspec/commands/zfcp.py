from ksspec.errors import KickstartParseWarning
from ksspec.version import FC3, F12, F14
from ksspec.base import BaseData, KickstartCommand
from ksspec.options import KSOptionParser
import warnings
from ksspec.i18n import _

class FC3_ZFCPData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.devnum = kwargs.get('devnum', '')
        self.wwpn = kwargs.get('wwpn', '')
        self.fcplun = kwargs.get('fcplun', '')
        self.scsiid = kwargs.get('scsiid', '')
        self.scsilun = kwargs.get('scsilun', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.devnum == y.devnum and self.wwpn == y.wwpn and (self.fcplun == y.fcplun) and (self.scsiid == y.scsiid) and (self.scsilun == y.scsilun)

    def __ne__(self, y):
        return not self == y

class F12_ZFCPData(FC3_ZFCPData):
    removedKeywords = FC3_ZFCPData.removedKeywords + ['scsiid', 'scsilun']
    removedAttrs = FC3_ZFCPData.removedAttrs + ['scsiid', 'scsilun']

    def __init__(self, *args, **kwargs):
        FC3_ZFCPData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()

    def __eq__(self, y):
        if not y:
            return False
        return self.devnum == y.devnum and self.wwpn == y.wwpn and (self.fcplun == y.fcplun)

class F14_ZFCPData(F12_ZFCPData):
    pass

class FC3_ZFCP(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=71, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.zfcp = kwargs.get('zfcp', [])

    def _getParser(self):
        op = KSOptionParser(prog='zfcp')
        op.add_argument('--devnum', required=True)
        op.add_argument('--fcplun', required=True)
        op.add_argument('--scsiid', required=True)
        op.add_argument('--scsilun', required=True)
        op.add_argument('--wwpn', required=True)
        return op

    def parse(self, args):
        zd = self.dataClass()
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_obj(ns, zd)
        zd.lineno = self.lineno
        if zd in self.dataList():
            warnings.warn(_('A zfcp with this information has already been defined.'), KickstartParseWarning)
        return zd

    def dataList(self):
        return self.zfcp

    @property
    def dataClass(self):
        return self.handler.ZFCPData

class F12_ZFCP(FC3_ZFCP):
    removedKeywords = FC3_ZFCP.removedKeywords
    removedAttrs = FC3_ZFCP.removedAttrs + ['scsiid', 'scsilun']

    def __init__(self, *args, **kwargs):
        FC3_ZFCP.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()

    def _getParser(self):
        op = FC3_ZFCP._getParser(self)
        op.add_argument('--scsiid')
        op.add_argument('--scsilun')
        return op

class F14_ZFCP(F12_ZFCP):
    removedKeywords = F12_ZFCP.removedKeywords
    removedAttrs = F12_ZFCP.removedAttrs

    def _getParser(self):
        op = F12_ZFCP._getParser(self)
        op.remove_argument('--scsiid')
        op.remove_argument('--scsilun')
        return op
