from ksspec.version import F17, F23, RHEL8, versionToLongString
from ksspec.base import BaseData, KickstartCommand, DeprecatedCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser, mountpoint
import warnings
from ksspec.i18n import _

class F17_BTRFSData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.format = kwargs.get('format', True)
        self.preexist = kwargs.get('preexist', False)
        self.label = kwargs.get('label', '')
        self.mountpoint = kwargs.get('mountpoint', '')
        self.devices = kwargs.get('devices', [])
        self.dataLevel = kwargs.get('data', None) or kwargs.get('dataLevel', None)
        self.metaDataLevel = kwargs.get('metadata', None) or kwargs.get('metaDataLevel', None)
        self.subvol = kwargs.get('subvol', False)
        self.parent = kwargs.get('parent', '')
        self.name = kwargs.get('name', None)

    def __eq__(self, y):
        if not y:
            return False
        return self.mountpoint == y.mountpoint

    def __ne__(self, y):
        return not self == y

class F23_BTRFSData(F17_BTRFSData):
    removedKeywords = F17_BTRFSData.removedKeywords
    removedAttrs = F17_BTRFSData.removedAttrs

    def __init__(self, *args, **kwargs):
        F17_BTRFSData.__init__(self, *args, **kwargs)
        self.mkfsopts = kwargs.get('mkfsoptions', '') or kwargs.get('mkfsopts', '')

class RHEL7_BTRFSData(F23_BTRFSData):
    pass

class F17_BTRFS(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=132, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.levelMap = {'raid0': 'raid0', '0': 'raid0', 'raid1': 'raid1', '1': 'raid1', 'raid10': 'raid10', '10': 'raid10', 'single': 'single'}
        self.btrfsList = kwargs.get('btrfsList', [])

    def _getParser(self):

        def level_cb(value):
            if value.lower() in self.levelMap:
                return self.levelMap[value.lower()]
            else:
                raise KickstartParseError(_('Invalid btrfs level: %s') % value, lineno=self.lineno)
        op = KSOptionParser(prog='btrfs')
        op.add_argument('--noformat', dest='format', action='store_false', default=True)
        op.add_argument('--useexisting', dest='preexist', action='store_true', default=False)
        op.add_argument('--label', default='')
        op.add_argument('--data', dest='dataLevel', type=level_cb)
        op.add_argument('--metadata', dest='metaDataLevel', type=level_cb)
        op.add_argument('--subvol', action='store_true', default=False)
        op.add_argument('--parent', default='')
        op.add_argument('--name', default='')
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        data = self.dataClass()
        self.set_to_obj(ns, data)
        data.lineno = self.lineno
        if not data.format:
            data.preexist = True
        elif data.preexist:
            data.format = False
        if not extra:
            raise KickstartParseError(_('btrfs must be given a mountpoint'), lineno=self.lineno)
        elif any((arg for arg in extra if arg.startswith('-'))):
            mapping = {'command': 'btrfs', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        data.mountpoint = mountpoint(extra[0])
        data.devices = extra[1:]
        if not any([data.devices, data.subvol]):
            raise KickstartParseError(_('btrfs must be given a list of partitions'), lineno=self.lineno)
        elif not data.devices:
            raise KickstartParseError(_('btrfs subvol requires specification of parent volume'), lineno=self.lineno)
        if data.subvol and (not data.name):
            raise KickstartParseError(_('btrfs subvolume requires a name'), lineno=self.lineno)
        if data in self.dataList():
            warnings.warn(_('A btrfs volume with the mountpoint %s has already been defined.') % data.mountpoint, KickstartParseWarning)
        return data

    def dataList(self):
        return self.btrfsList

    @property
    def dataClass(self):
        return self.handler.BTRFSData

class F23_BTRFS(F17_BTRFS):
    removedKeywords = F17_BTRFS.removedKeywords
    removedAttrs = F17_BTRFS.removedAttrs

    def _getParser(self):
        op = F17_BTRFS._getParser(self)
        op.add_argument('--mkfsoptions', dest='mkfsopts')
        return op

    def parse(self, args):
        data = F17_BTRFS.parse(self, args)
        if (data.preexist or not data.format) and data.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions with --noformat or --useexisting has no effect.'), lineno=self.lineno)
        return data

class RHEL7_BTRFS(F23_BTRFS):
    pass

class RHEL8_BTRFS(DeprecatedCommand, F23_BTRFS):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = F23_BTRFS._getParser(self)
        pass
        return op
