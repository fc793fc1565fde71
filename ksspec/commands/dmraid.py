from ksspec.errors import KickstartParseWarning
from ksspec.version import versionToLongString, FC6, F24, F34
from ksspec.base import BaseData, DeprecatedCommand, KickstartCommand, RemovedCommand
from ksspec.options import KSOptionParser
import warnings
from ksspec.i18n import _

class FC6_DmRaidData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.name = kwargs.get('name', '')
        self.devices = kwargs.get('devices', [])
        self.dmset = kwargs.get('dmset', None)

    def __eq__(self, y):
        if not y:
            return False
        return self.name == y.name and self.devices == y.devices

    def __ne__(self, y):
        return not self == y

class FC6_DmRaid(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=60, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.dmraids = kwargs.get('dmraids', [])

    def _getParser(self):
        op = KSOptionParser(prog='dmraid')
        op.add_argument('--name', required=True)
        op.add_argument('--dev', dest='devices', action='append', required=True)
        return op

    def parse(self, args):
        dm = self.dataClass()
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_obj(ns, dm)
        dm.name = dm.name.split('/')[-1]
        dm.lineno = self.lineno
        if dm in self.dataList():
            warnings.warn(_('A DM RAID device with the name %(name)s and devices %(devices)s has already been defined.') % {'name': dm.name, 'devices': dm.devices}, KickstartParseWarning)
        return dm

    def dataList(self):
        return self.dmraids

    @property
    def dataClass(self):
        return self.handler.DmRaidData

class F24_DmRaid(DeprecatedCommand, FC6_DmRaid):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = FC6_DmRaid._getParser(self)
        pass
        return op

class F34_DmRaid(RemovedCommand, F24_DmRaid):

    def _getParser(self):
        op = F24_DmRaid._getParser(self)
        pass
        return op
