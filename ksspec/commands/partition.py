from ksspec.version import RHEL5, RHEL6, RHEL8, versionToLongString
from ksspec.version import FC3, FC4, F9, F11, F12, F14, F17, F18, F23, F29, F34
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser, mountpoint
import warnings
from ksspec.i18n import _

class FC3_PartData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.active = kwargs.get('active', False)
        self.primOnly = kwargs.get('primOnly', False)
        self.end = kwargs.get('end', 0)
        self.fstype = kwargs.get('fstype', '')
        self.grow = kwargs.get('grow', False)
        self.maxSizeMB = kwargs.get('maxSizeMB', 0)
        self.format = kwargs.get('format', True)
        self.onbiosdisk = kwargs.get('onbiosdisk', '')
        self.disk = kwargs.get('disk', '')
        self.onPart = kwargs.get('onPart', '')
        self.recommended = kwargs.get('recommended', False)
        self.size = kwargs.get('size', None)
        self.start = kwargs.get('start', 0)
        self.mountpoint = kwargs.get('mountpoint', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.mountpoint == y.mountpoint

    def __ne__(self, y):
        return not self == y

class FC4_PartData(FC3_PartData):
    removedKeywords = FC3_PartData.removedKeywords
    removedAttrs = FC3_PartData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC3_PartData.__init__(self, *args, **kwargs)
        self.bytesPerInode = kwargs.get('bytesPerInode', 4096)
        self.fsopts = kwargs.get('fsopts', '')
        self.label = kwargs.get('label', '')

class RHEL5_PartData(FC4_PartData):
    removedKeywords = FC4_PartData.removedKeywords
    removedAttrs = FC4_PartData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC4_PartData.__init__(self, *args, **kwargs)
        self.encrypted = kwargs.get('encrypted', False)
        self.passphrase = kwargs.get('passphrase', '')

class F9_PartData(FC4_PartData):
    removedKeywords = FC4_PartData.removedKeywords + ['bytesPerInode']
    removedAttrs = FC4_PartData.removedAttrs + ['bytesPerInode']

    def __init__(self, *args, **kwargs):
        FC4_PartData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.fsopts = kwargs.get('fsopts', '')
        self.label = kwargs.get('label', '')
        self.fsprofile = kwargs.get('fsprofile', '')
        self.encrypted = kwargs.get('encrypted', False)
        self.passphrase = kwargs.get('passphrase', '')

class F11_PartData(F9_PartData):
    removedKeywords = F9_PartData.removedKeywords + ['start', 'end']
    removedAttrs = F9_PartData.removedAttrs + ['start', 'end']

class F12_PartData(F11_PartData):
    removedKeywords = F11_PartData.removedKeywords
    removedAttrs = F11_PartData.removedAttrs

    def __init__(self, *args, **kwargs):
        F11_PartData.__init__(self, *args, **kwargs)
        self.escrowcert = kwargs.get('escrowcert', '')
        self.backuppassphrase = kwargs.get('backuppassphrase', False)

class RHEL6_PartData(F12_PartData):
    removedKeywords = F12_PartData.removedKeywords
    removedAttrs = F12_PartData.removedAttrs

    def __init__(self, *args, **kwargs):
        F12_PartData.__init__(self, *args, **kwargs)
        self.cipher = kwargs.get('cipher', '')
        self.hibernation = kwargs.get('hibernation', False)

class F14_PartData(F12_PartData):
    pass

class F17_PartData(F14_PartData):
    removedKeywords = F14_PartData.removedKeywords
    removedAttrs = F14_PartData.removedAttrs

    def __init__(self, *args, **kwargs):
        F14_PartData.__init__(self, *args, **kwargs)
        self.resize = kwargs.get('resize', False)

class F18_PartData(F17_PartData):
    removedKeywords = F17_PartData.removedKeywords
    removedAttrs = F17_PartData.removedAttrs

    def __init__(self, *args, **kwargs):
        F17_PartData.__init__(self, *args, **kwargs)
        self.hibernation = kwargs.get('hibernation', False)
        self.cipher = kwargs.get('cipher', '')

class F23_PartData(F18_PartData):

    def __init__(self, *args, **kwargs):
        F18_PartData.__init__(self, *args, **kwargs)
        self.mkfsopts = kwargs.get('mkfsoptions', '') or kwargs.get('mkfsopts', '')

class RHEL7_PartData(F23_PartData):
    pass

class F29_PartData(F23_PartData):

    def __init__(self, *args, **kwargs):
        F23_PartData.__init__(self, *args, **kwargs)
        self.luks_version = kwargs.get('luks_version', '')
        self.pbkdf = kwargs.get('pbkdf', '')
        self.pbkdf_memory = kwargs.get('pbkdf_memory', 0)
        self.pbkdf_time = kwargs.get('pbkdf_time', 0)
        self.pbkdf_iterations = kwargs.get('pbkdf_iterations', 0)

class RHEL8_PartData(F29_PartData):
    pass

class FC3_Partition(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=130, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.partitions = kwargs.get('partitions', [])

    def _getParser(self):

        def part_cb(value):
            if value.startswith('/dev/'):
                return value[5:]
            else:
                return value
        op = KSOptionParser(prog='part|partition')
        op.add_argument('mntpoint', type=mountpoint, nargs=1)
        op.add_argument('--active', action='store_true', default=False)
        op.add_argument('--asprimary', dest='primOnly', action='store_true', default=False)
        op.add_argument('--start', type=int)
        op.add_argument('--end', type=int)
        op.add_argument('--fstype', '--type', dest='fstype')
        op.add_argument('--grow', action='store_true', default=False)
        op.add_argument('--maxsize', dest='maxSizeMB', type=int)
        op.add_argument('--noformat', dest='format', action='store_false', default=True)
        op.add_argument('--onbiosdisk')
        op.add_argument('--ondisk', '--ondrive', dest='disk')
        op.add_argument('--onpart', '--usepart', dest='onPart', type=part_cb)
        op.add_argument('--recommended', action='store_true', default=False)
        op.add_argument('--size', type=int)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        assert len(ns.mntpoint) == 1
        if extra:
            mapping = {'command': 'partition', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        pd = self.dataClass()
        self.set_to_obj(ns, pd)
        pd.lineno = self.lineno
        pd.mountpoint = ns.mntpoint[0]
        if pd.mountpoint != 'swap' and pd in self.dataList():
            warnings.warn(_('A partition with the mountpoint %s has already been defined.') % pd.mountpoint, KickstartParseWarning)
        return pd

    def dataList(self):
        return self.partitions

    @property
    def dataClass(self):
        return self.handler.PartData

class FC4_Partition(FC3_Partition):
    removedKeywords = FC3_Partition.removedKeywords
    removedAttrs = FC3_Partition.removedAttrs

    def _getParser(self):
        op = FC3_Partition._getParser(self)
        op.add_argument('--bytes-per-inode', dest='bytesPerInode', type=int)
        op.add_argument('--fsoptions', dest='fsopts')
        op.add_argument('--label')
        return op

class RHEL5_Partition(FC4_Partition):
    removedKeywords = FC4_Partition.removedKeywords
    removedAttrs = FC4_Partition.removedAttrs

    def _getParser(self):
        op = FC4_Partition._getParser(self)
        op.add_argument('--encrypted', action='store_true', default=False)
        op.add_argument('--passphrase')
        return op

class F9_Partition(FC4_Partition):
    removedKeywords = FC4_Partition.removedKeywords
    removedAttrs = FC4_Partition.removedAttrs

    def _getParser(self):
        op = FC4_Partition._getParser(self)
        op.add_argument('--bytes-per-inode')
        op.add_argument('--fsprofile')
        op.add_argument('--encrypted', action='store_true', default=False)
        op.add_argument('--passphrase')
        return op

class F11_Partition(F9_Partition):
    removedKeywords = F9_Partition.removedKeywords
    removedAttrs = F9_Partition.removedAttrs

    def _getParser(self):
        op = F9_Partition._getParser(self)
        op.add_argument('--start')
        op.add_argument('--end')
        return op

class F12_Partition(F11_Partition):
    removedKeywords = F11_Partition.removedKeywords
    removedAttrs = F11_Partition.removedAttrs

    def _getParser(self):
        op = F11_Partition._getParser(self)
        op.add_argument('--escrowcert')
        op.add_argument('--backuppassphrase', action='store_true', default=False)
        return op

class RHEL6_Partition(F12_Partition):
    removedKeywords = F12_Partition.removedKeywords
    removedAttrs = F12_Partition.removedAttrs

    def _getParser(self):
        op = F12_Partition._getParser(self)
        op.add_argument('--cipher')
        op.add_argument('--hibernation', action='store_true', default=False)
        return op

    def parse(self, args):
        retval = F12_Partition.parse(self, args)
        if self.handler.autopart.seen:
            errorMsg = _("The part/partition and autopart commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F14_Partition(F12_Partition):
    removedKeywords = F12_Partition.removedKeywords
    removedAttrs = F12_Partition.removedAttrs

    def _getParser(self):
        op = F12_Partition._getParser(self)
        op.remove_argument('--bytes-per-inode')
        op.remove_argument('--start')
        op.remove_argument('--end')
        return op

class F17_Partition(F14_Partition):
    removedKeywords = F14_Partition.removedKeywords
    removedAttrs = F14_Partition.removedAttrs

    def _getParser(self):
        op = F14_Partition._getParser(self)
        op.add_argument('--resize', action='store_true', default=False)
        return op

    def parse(self, args):
        retval = F14_Partition.parse(self, args)
        if retval.resize and (not retval.onPart):
            raise KickstartParseError(_('--resize can only be used in conjunction with --onpart'), lineno=self.lineno)
        if retval.resize and (not retval.size):
            raise KickstartParseError(_('--resize requires --size to specify new size'), lineno=self.lineno)
        return retval

class F18_Partition(F17_Partition):
    removedKeywords = F17_Partition.removedKeywords
    removedAttrs = F17_Partition.removedAttrs

    def _getParser(self):
        op = F17_Partition._getParser(self)
        op.add_argument('--hibernation', action='store_true', default=False)
        op.add_argument('--cipher')
        return op

class F20_Partition(F18_Partition):
    removedKeywords = F18_Partition.removedKeywords
    removedAttrs = F18_Partition.removedAttrs

    def parse(self, args):
        retval = F18_Partition.parse(self, args)
        if self.handler.autopart.seen:
            errorMsg = _("The part/partition and autopart commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if hasattr(self.handler, 'mount') and self.handler.mount.seen:
            errorMsg = _("The part/partition and mount commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if retval.fstype == 'tmpfs':
            if retval.grow or retval.maxSizeMB != 0:
                errorMsg = _("The --fstype=tmpfs option can't be used together with --grow or --maxsize")
                raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F23_Partition(F20_Partition):
    removedKeywords = F20_Partition.removedKeywords
    removedAttrs = F20_Partition.removedAttrs

    def _getParser(self):
        op = F20_Partition._getParser(self)
        op.add_argument('--mkfsoptions', dest='mkfsopts')
        return op

    def parse(self, args):
        retval = F20_Partition.parse(self, args)
        if not retval.format and retval.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions with --noformat has no effect.'), lineno=self.lineno)
        if retval.fsprofile and retval.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions and --fsprofile cannot be used together.'), lineno=self.lineno)
        return retval

class RHEL7_Partition(F23_Partition):
    pass

class F29_Partition(F23_Partition):
    removedKeywords = F23_Partition.removedKeywords
    removedAttrs = F23_Partition.removedAttrs

    def _getParser(self):
        op = F23_Partition._getParser(self)
        op.add_argument('--active', action='store_true', default=False)
        op.add_argument('--luks-version', dest='luks_version', default='')
        op.add_argument('--pbkdf', default='')
        op.add_argument('--pbkdf-memory', dest='pbkdf_memory', type=int, default=0)
        op.add_argument('--pbkdf-time', dest='pbkdf_time', type=int, default=0)
        op.add_argument('--pbkdf-iterations', dest='pbkdf_iterations', type=int, default=0)
        return op

    def parse(self, args):
        retval = F23_Partition.parse(self, args)
        if retval.pbkdf_time and retval.pbkdf_iterations:
            msg = _('Only one of --pbkdf-time and --pbkdf-iterations can be specified.')
            raise KickstartParseError(msg, lineno=self.lineno)
        return retval

class RHEL8_Partition(F29_Partition):
    removedKeywords = F29_Partition.removedKeywords
    removedAttrs = F29_Partition.removedAttrs

    def parse(self, args):
        retval = F29_Partition.parse(self, args)
        if retval.mountpoint.startswith('btrfs.') or retval.fstype == 'btrfs':
            raise KickstartParseError(_('Btrfs file system is not supported'), lineno=self.lineno)
        return retval

    def _getParser(self):
        op = F29_Partition._getParser(self)
        for action in op._actions:
            if '--fstype' in action.option_strings:
                pass
        return op

class F34_Partition(F29_Partition):
    removedKeywords = F29_Partition.removedKeywords
    removedAttrs = F29_Partition.removedAttrs

    def _getParser(self):
        op = F29_Partition._getParser(self)
        op.remove_argument('--active')
        return op
