from textwrap import dedent
from ksspec.version import versionToLongString, RHEL5, RHEL6, FC3, FC4, FC5, F29
from ksspec.version import F7, F9, F12, F13, F14, F15, F18, F23, F25, RHEL8
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser, mountpoint
import warnings
from ksspec.i18n import _

class FC3_RaidData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.device = kwargs.get('device', None)
        self.fstype = kwargs.get('fstype', '')
        self.level = kwargs.get('level', '')
        self.format = kwargs.get('format', True)
        self.spares = kwargs.get('spares', 0)
        self.preexist = kwargs.get('preexist', False)
        self.mountpoint = kwargs.get('mountpoint', '')
        self.members = kwargs.get('members', [])

    def __eq__(self, y):
        if not y:
            return False
        return self.device == y.device

    def __ne__(self, y):
        return not self == y

class FC4_RaidData(FC3_RaidData):
    removedKeywords = FC3_RaidData.removedKeywords
    removedAttrs = FC3_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC3_RaidData.__init__(self, *args, **kwargs)
        self.fsopts = kwargs.get('fsopts', '')

class FC5_RaidData(FC4_RaidData):
    removedKeywords = FC4_RaidData.removedKeywords
    removedAttrs = FC4_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC4_RaidData.__init__(self, *args, **kwargs)
        self.bytesPerInode = kwargs.get('bytesPerInode', 4096)

class RHEL5_RaidData(FC5_RaidData):
    removedKeywords = FC5_RaidData.removedKeywords
    removedAttrs = FC5_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC5_RaidData.__init__(self, *args, **kwargs)
        self.encrypted = kwargs.get('encrypted', False)
        self.passphrase = kwargs.get('passphrase', '')

class F7_RaidData(FC5_RaidData):
    pass

class F9_RaidData(F7_RaidData):
    removedKeywords = F7_RaidData.removedKeywords + ['bytesPerInode']
    removedAttrs = F7_RaidData.removedAttrs + ['bytesPerInode']

    def __init__(self, *args, **kwargs):
        F7_RaidData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.fsprofile = kwargs.get('fsprofile', '')
        self.encrypted = kwargs.get('encrypted', False)
        self.passphrase = kwargs.get('passphrase', '')

class F12_RaidData(F9_RaidData):
    removedKeywords = F9_RaidData.removedKeywords
    removedAttrs = F9_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        F9_RaidData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.escrowcert = kwargs.get('escrowcert', '')
        self.backuppassphrase = kwargs.get('backuppassphrase', False)

class F13_RaidData(F12_RaidData):
    pass

class RHEL6_RaidData(F13_RaidData):
    removedKeywords = F13_RaidData.removedKeywords
    removedAttrs = F13_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        F13_RaidData.__init__(self, *args, **kwargs)
        self.cipher = kwargs.get('cipher', '')

class F14_RaidData(F13_RaidData):
    pass

class F15_RaidData(F14_RaidData):
    removedKeywords = F14_RaidData.removedKeywords
    removedAttrs = F14_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        F14_RaidData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.label = kwargs.get('label', '')

class F18_RaidData(F15_RaidData):
    removedKeywords = F15_RaidData.removedKeywords
    removedAttrs = F15_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        F15_RaidData.__init__(self, *args, **kwargs)
        self.cipher = kwargs.get('cipher', '')

class F23_RaidData(F18_RaidData):
    removedKeywords = F18_RaidData.removedKeywords
    removedAttrs = F18_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        F18_RaidData.__init__(self, *args, **kwargs)
        self.mkfsopts = kwargs.get('mkfsoptions', '') or kwargs.get('mkfsopts', '')

class F25_RaidData(F23_RaidData):
    removedKeywords = F23_RaidData.removedKeywords
    removedAttrs = F23_RaidData.removedAttrs

    def __init__(self, *args, **kwargs):
        F23_RaidData.__init__(self, *args, **kwargs)
        self.chunk_size = kwargs.get('chunk_size', None)

class RHEL7_RaidData(F25_RaidData):
    pass

class F29_RaidData(F25_RaidData):

    def __init__(self, *args, **kwargs):
        F25_RaidData.__init__(self, *args, **kwargs)
        self.luks_version = kwargs.get('luks_version', '')
        self.pbkdf = kwargs.get('pbkdf', '')
        self.pbkdf_memory = kwargs.get('pbkdf_memory', 0)
        self.pbkdf_time = kwargs.get('pbkdf_time', 0)
        self.pbkdf_iterations = kwargs.get('pbkdf_iterations', 0)

class RHEL8_RaidData(F29_RaidData):
    pass

class FC3_Raid(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=131, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.levelMap = {'RAID0': 'RAID0', '0': 'RAID0', 'RAID1': 'RAID1', '1': 'RAID1', 'RAID5': 'RAID5', '5': 'RAID5', 'RAID6': 'RAID6', '6': 'RAID6'}
        self.raidList = kwargs.get('raidList', [])
        self.op = self._getParser()

    def _getParser(self):

        def device_cb(value):
            if value[0:2] == 'md':
                return value[2:]
            else:
                return value

        def level_cb(value):
            if value.upper() in self.levelMap:
                return self.levelMap[value.upper()]
            else:
                raise KickstartParseError(_('Invalid raid level: %s') % value, lineno=self.lineno)
        op = KSOptionParser(prog='raid')
        op.add_argument('mntpoint', type=mountpoint, nargs=1)
        op.add_argument('partitions', nargs='*')
        op.add_argument('--device', type=device_cb, required=True)
        op.add_argument('--fstype')
        op.add_argument('--level', type=level_cb)
        op.add_argument('--noformat', dest='format', action='store_false', default=True)
        op.add_argument('--spares', type=int, default=0)
        op.add_argument('--useexisting', dest='preexist', action='store_true', default=False)
        return op

    def _getDevice(self, s):
        return int(s)

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if any((arg for arg in extra if arg.startswith('-'))):
            mapping = {'command': 'raid', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        if not ns.partitions and extra:
            ns.partitions = extra
            extra = []
        if not ns.format:
            ns.preexist = True
        assert len(ns.mntpoint) == 1
        if not ns.partitions and (not ns.preexist):
            raise KickstartParseError(_('Partitions required for %s') % 'raid', lineno=self.lineno)
        elif ns.partitions and ns.preexist:
            raise KickstartParseError(_('Members may not be specified for preexisting RAID device'), lineno=self.lineno)
        rd = self.dataClass()
        self.set_to_obj(ns, rd)
        rd.lineno = self.lineno
        rd.device = self._getDevice(rd.device)
        rd.mountpoint = ns.mntpoint[0]
        if len(ns.partitions) > 0:
            rd.members = ns.partitions
        if rd in self.dataList():
            warnings.warn(_('A RAID device with the name %s has already been defined.') % rd.device, KickstartParseWarning)
        if not rd.preexist and (not rd.level):
            raise KickstartParseError('RAID Partition defined without RAID level', lineno=self.lineno)
        if rd.preexist and rd.device == '':
            raise KickstartParseError('Device required for preexisting RAID device', lineno=self.lineno)
        return rd

    def dataList(self):
        return self.raidList

    @property
    def dataClass(self):
        return self.handler.RaidData

class FC4_Raid(FC3_Raid):
    removedKeywords = FC3_Raid.removedKeywords
    removedAttrs = FC3_Raid.removedAttrs

    def _getParser(self):
        op = FC3_Raid._getParser(self)
        op.add_argument('--fsoptions', dest='fsopts')
        return op

class FC5_Raid(FC4_Raid):
    removedKeywords = FC4_Raid.removedKeywords
    removedAttrs = FC4_Raid.removedAttrs

    def _getParser(self):
        op = FC4_Raid._getParser(self)
        op.add_argument('--bytes-per-inode', dest='bytesPerInode', type=int)
        return op

class RHEL5_Raid(FC5_Raid):
    removedKeywords = FC5_Raid.removedKeywords
    removedAttrs = FC5_Raid.removedAttrs

    def __init__(self, writePriority=131, *args, **kwargs):
        FC5_Raid.__init__(self, writePriority, *args, **kwargs)
        self.levelMap.update({'RAID10': 'RAID10', '10': 'RAID10'})

    def _getParser(self):
        op = FC5_Raid._getParser(self)
        for action in op._actions:
            if '--level' in action.option_strings:
                pass
                break
        op.add_argument('--encrypted', action='store_true', default=False)
        op.add_argument('--passphrase')
        return op

class F7_Raid(FC5_Raid):
    removedKeywords = FC5_Raid.removedKeywords
    removedAttrs = FC5_Raid.removedAttrs

    def __init__(self, writePriority=131, *args, **kwargs):
        FC5_Raid.__init__(self, writePriority, *args, **kwargs)
        self.levelMap.update({'RAID10': 'RAID10', '10': 'RAID10'})

    def _getParser(self):
        op = FC5_Raid._getParser(self)
        for action in op._actions:
            if '--level' in action.option_strings:
                pass
                break
        return op

class F9_Raid(F7_Raid):
    removedKeywords = F7_Raid.removedKeywords
    removedAttrs = F7_Raid.removedAttrs

    def _getParser(self):
        op = F7_Raid._getParser(self)
        op.add_argument('--bytes-per-inode')
        op.add_argument('--fsprofile')
        op.add_argument('--encrypted', action='store_true', default=False)
        op.add_argument('--passphrase')
        return op

class F12_Raid(F9_Raid):
    removedKeywords = F9_Raid.removedKeywords
    removedAttrs = F9_Raid.removedAttrs

    def _getParser(self):
        op = F9_Raid._getParser(self)
        op.add_argument('--escrowcert')
        op.add_argument('--backuppassphrase', action='store_true', default=False)
        return op

class F13_Raid(F12_Raid):
    removedKeywords = F12_Raid.removedKeywords
    removedAttrs = F12_Raid.removedAttrs

    def __init__(self, writePriority=131, *args, **kwargs):
        F12_Raid.__init__(self, writePriority, *args, **kwargs)
        self.levelMap.update({'RAID4': 'RAID4', '4': 'RAID4'})

    def _getParser(self):
        op = F12_Raid._getParser(self)
        for action in op._actions:
            if '--level' in action.option_strings:
                pass
                break
        return op

class RHEL6_Raid(F13_Raid):
    removedKeywords = F13_Raid.removedKeywords
    removedAttrs = F13_Raid.removedAttrs

    def _getParser(self):
        op = F13_Raid._getParser(self)
        op.add_argument('--cipher')
        return op

    def parse(self, args):
        retval = F13_Raid.parse(self, args)
        if self.handler.autopart.seen:
            errorMsg = _("The raid and autopart commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F14_Raid(F13_Raid):
    removedKeywords = F13_Raid.removedKeywords
    removedAttrs = F13_Raid.removedAttrs

    def _getParser(self):
        op = F13_Raid._getParser(self)
        op.remove_argument('--bytes-per-inode')
        return op

class F15_Raid(F14_Raid):
    removedKeywords = F14_Raid.removedKeywords
    removedAttrs = F14_Raid.removedAttrs

    def _getParser(self):
        op = F14_Raid._getParser(self)
        op.add_argument('--label')
        return op

class F18_Raid(F15_Raid):
    removedKeywords = F15_Raid.removedKeywords
    removedAttrs = F15_Raid.removedAttrs

    def _getParser(self):
        op = F15_Raid._getParser(self)
        op.add_argument('--cipher')
        return op

class F19_Raid(F18_Raid):
    removedKeywords = F18_Raid.removedKeywords
    removedAttrs = F18_Raid.removedAttrs

    def _getDevice(self, s):
        return s

class F20_Raid(F19_Raid):
    removedKeywords = F19_Raid.removedKeywords
    removedAttrs = F19_Raid.removedAttrs

    def parse(self, args):
        retval = F19_Raid.parse(self, args)
        if self.handler.autopart.seen:
            errorMsg = _("The raid and autopart commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if hasattr(self.handler, 'mount') and self.handler.mount.seen:
            errorMsg = _("The raid and mount commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F23_Raid(F20_Raid):
    removedKeywords = F20_Raid.removedKeywords
    removedAttrs = F20_Raid.removedAttrs

    def _getParser(self):
        op = F20_Raid._getParser(self)
        op.add_argument('--mkfsoptions', dest='mkfsopts')
        return op

    def parse(self, args):
        retval = F20_Raid.parse(self, args)
        if not retval.format and retval.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions with --noformat has no effect.'), lineno=self.lineno)
        if retval.fsprofile and retval.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions and --fsprofile cannot be used together.'), lineno=self.lineno)
        return retval

class F25_Raid(F23_Raid):
    removedKeywords = F23_Raid.removedKeywords
    removedAttrs = F23_Raid.removedAttrs

    def _getParser(self):
        op = F23_Raid._getParser(self)
        op.add_argument('--chunksize', type=int, dest='chunk_size')
        return op

class RHEL7_Raid(F25_Raid):
    pass

class F29_Raid(F25_Raid):
    removedKeywords = F25_Raid.removedKeywords
    removedAttrs = F25_Raid.removedAttrs

    def _getParser(self):
        op = F25_Raid._getParser(self)
        op.add_argument('--luks-version', dest='luks_version', default='')
        op.add_argument('--pbkdf', default='')
        op.add_argument('--pbkdf-memory', dest='pbkdf_memory', type=int, default=0)
        op.add_argument('--pbkdf-time', dest='pbkdf_time', type=int, default=0)
        op.add_argument('--pbkdf-iterations', dest='pbkdf_iterations', type=int, default=0)
        return op

    def parse(self, args):
        retval = F25_Raid.parse(self, args)
        if retval.pbkdf_time and retval.pbkdf_iterations:
            msg = _('Only one of --pbkdf-time and --pbkdf-iterations can be specified.')
            raise KickstartParseError(msg, lineno=self.lineno)
        return retval

class RHEL8_Raid(F29_Raid):
    removedKeywords = F29_Raid.removedKeywords
    removedAttrs = F29_Raid.removedAttrs

    def parse(self, args):
        retval = F29_Raid.parse(self, args)
        if retval.fstype == 'btrfs':
            raise KickstartParseError(_('Btrfs file system is not supported'), lineno=self.lineno)
        return retval

    def _getParser(self):
        op = F29_Raid._getParser(self)
        for action in op._actions:
            if '--fstype' in action.option_strings:
                pass
        return op
