from ksspec.version import FC3, FC4, F9, F12, F14, F15, F17, F18, F20, F21, F29
from ksspec.version import F23, RHEL5, RHEL6, RHEL7, RHEL8, versionToLongString
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser, commaSplit, mountpoint
import warnings
from ksspec.i18n import _

class FC3_LogVolData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.fstype = kwargs.get('fstype', '')
        self.grow = kwargs.get('grow', False)
        self.maxSizeMB = kwargs.get('maxSizeMB', 0)
        self.name = kwargs.get('name', '')
        self.format = kwargs.get('format', True)
        self.percent = kwargs.get('percent', 0)
        self.recommended = kwargs.get('recommended', False)
        self.size = kwargs.get('size', None)
        self.preexist = kwargs.get('preexist', False)
        self.vgname = kwargs.get('vgname', '')
        self.mountpoint = kwargs.get('mountpoint', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.vgname == y.vgname and self.name == y.name

    def __ne__(self, y):
        return not self == y

class FC4_LogVolData(FC3_LogVolData):
    removedKeywords = FC3_LogVolData.removedKeywords
    removedAttrs = FC3_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC3_LogVolData.__init__(self, *args, **kwargs)
        self.bytesPerInode = kwargs.get('bytesPerInode', 4096)
        self.fsopts = kwargs.get('fsopts', '')

class RHEL5_LogVolData(FC4_LogVolData):
    removedKeywords = FC4_LogVolData.removedKeywords
    removedAttrs = FC4_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC4_LogVolData.__init__(self, *args, **kwargs)
        self.encrypted = kwargs.get('encrypted', False)
        self.passphrase = kwargs.get('passphrase', '')

class F9_LogVolData(FC4_LogVolData):
    removedKeywords = FC4_LogVolData.removedKeywords + ['bytesPerInode']
    removedAttrs = FC4_LogVolData.removedAttrs + ['bytesPerInode']

    def __init__(self, *args, **kwargs):
        FC4_LogVolData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.fsopts = kwargs.get('fsopts', '')
        self.fsprofile = kwargs.get('fsprofile', '')
        self.encrypted = kwargs.get('encrypted', False)
        self.passphrase = kwargs.get('passphrase', '')

class F12_LogVolData(F9_LogVolData):
    removedKeywords = F9_LogVolData.removedKeywords
    removedAttrs = F9_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        F9_LogVolData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.escrowcert = kwargs.get('escrowcert', '')
        self.backuppassphrase = kwargs.get('backuppassphrase', False)

class RHEL6_LogVolData(F12_LogVolData):
    removedKeywords = F12_LogVolData.removedKeywords
    removedAttrs = F12_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        F12_LogVolData.__init__(self, *args, **kwargs)
        self.cipher = kwargs.get('cipher', '')
        self.hibernation = kwargs.get('hibernation', False)
        self.thin_pool = kwargs.get('thin_pool', False)
        self.thin_volume = kwargs.get('thin_volume', False)
        self.pool_name = kwargs.get('pool_name', '')
        self.chunk_size = kwargs.get('chunk_size', None)
        self.metadata_size = kwargs.get('metadata_size', None)
        self.profile = kwargs.get('profile', '')

class F14_LogVolData(F12_LogVolData):
    pass

class F15_LogVolData(F14_LogVolData):
    removedKeywords = F14_LogVolData.removedKeywords
    removedAttrs = F14_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        F14_LogVolData.__init__(self, *args, **kwargs)
        self.label = kwargs.get('label', '')

class F17_LogVolData(F15_LogVolData):
    removedKeywords = F15_LogVolData.removedKeywords
    removedAttrs = F15_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        F15_LogVolData.__init__(self, *args, **kwargs)
        self.resize = kwargs.get('resize', False)

class F18_LogVolData(F17_LogVolData):
    removedKeywords = F17_LogVolData.removedKeywords
    removedAttrs = F17_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        F17_LogVolData.__init__(self, *args, **kwargs)
        self.hibernation = kwargs.get('hibernation', False)
        self.cipher = kwargs.get('cipher', '')

class F20_LogVolData(F18_LogVolData):
    removedKeywords = F18_LogVolData.removedKeywords
    removedAttrs = F18_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        F18_LogVolData.__init__(self, *args, **kwargs)
        self.thin_pool = kwargs.get('thin_pool', False)
        self.thin_volume = kwargs.get('thin_volume', False)
        self.pool_name = kwargs.get('pool_name', '')
        self.chunk_size = kwargs.get('chunk_size', None)
        self.metadata_size = kwargs.get('metadata_size', None)

class F21_LogVolData(F20_LogVolData):
    removedKeywords = F20_LogVolData.removedKeywords
    removedAttrs = F20_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        F20_LogVolData.__init__(self, *args, **kwargs)
        self.profile = kwargs.get('profile', '')

class RHEL7_LogVolData(F21_LogVolData):
    removedKeywords = F21_LogVolData.removedKeywords
    removedAttrs = F21_LogVolData.removedAttrs

    def __init__(self, *args, **kwargs):
        F21_LogVolData.__init__(self, *args, **kwargs)
        self.mkfsopts = kwargs.get('mkfsoptions', '') or kwargs.get('mkfsopts', '')

class F23_LogVolData(F21_LogVolData):

    def __init__(self, *args, **kwargs):
        F21_LogVolData.__init__(self, *args, **kwargs)
        self.cache_size = kwargs.get('cache_size', 0)
        self.cache_mode = kwargs.get('cache_mode', '')
        self.cache_pvs = kwargs.get('cache_pvs', [])
        self.mkfsopts = kwargs.get('mkfsoptions', '') or kwargs.get('mkfsopts', '')

class F29_LogVolData(F23_LogVolData):

    def __init__(self, *args, **kwargs):
        F23_LogVolData.__init__(self, *args, **kwargs)
        self.luks_version = kwargs.get('luks_version', '')
        self.pbkdf = kwargs.get('pbkdf', '')
        self.pbkdf_memory = kwargs.get('pbkdf_memory', 0)
        self.pbkdf_time = kwargs.get('pbkdf_time', 0)
        self.pbkdf_iterations = kwargs.get('pbkdf_iterations', 0)

class RHEL8_LogVolData(F29_LogVolData):
    pass

class FC3_LogVol(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=133, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.lvList = kwargs.get('lvList', [])

    def _getParser(self):
        op = KSOptionParser(prog='logvol')
        op.add_argument('mntpoint', type=mountpoint, nargs=1)
        op.add_argument('--fstype')
        op.add_argument('--grow', action='store_true', default=False)
        op.add_argument('--maxsize', dest='maxSizeMB', type=int)
        op.add_argument('--name', required=True)
        op.add_argument('--noformat', action='store_false', dest='format', default=True)
        op.add_argument('--percent', dest='percent', type=int)
        op.add_argument('--recommended', action='store_true', default=False)
        op.add_argument('--size', type=int)
        op.add_argument('--useexisting', dest='preexist', action='store_true', default=False)
        op.add_argument('--vgname', required=True)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if extra:
            mapping = {'command': 'logvol', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        lvd = self.dataClass()
        self.set_to_obj(ns, lvd)
        lvd.lineno = self.lineno
        lvd.mountpoint = ns.mntpoint[0]
        if not lvd.format:
            lvd.preexist = True
        if lvd in self.dataList():
            warnings.warn(_('A logical volume with the name %(logical_volume_name)s has already been defined in volume group %(volume_group)s.') % {'logical_volume_name': lvd.name, 'volume_group': lvd.vgname}, KickstartParseWarning)
        return lvd

    def dataList(self):
        return self.lvList

    @property
    def dataClass(self):
        return self.handler.LogVolData

class FC4_LogVol(FC3_LogVol):
    removedKeywords = FC3_LogVol.removedKeywords
    removedAttrs = FC3_LogVol.removedAttrs

    def _getParser(self):
        op = FC3_LogVol._getParser(self)
        op.add_argument('--bytes-per-inode', dest='bytesPerInode', type=int)
        op.add_argument('--fsoptions', dest='fsopts')
        return op

class RHEL5_LogVol(FC4_LogVol):
    removedKeywords = FC4_LogVol.removedKeywords
    removedAttrs = FC4_LogVol.removedAttrs

    def _getParser(self):
        op = FC4_LogVol._getParser(self)
        op.add_argument('--encrypted', action='store_true', default=False)
        op.add_argument('--passphrase')
        return op

class F9_LogVol(FC4_LogVol):
    removedKeywords = FC4_LogVol.removedKeywords
    removedAttrs = FC4_LogVol.removedAttrs

    def _getParser(self):
        op = FC4_LogVol._getParser(self)
        op.add_argument('--bytes-per-inode')
        op.add_argument('--fsprofile')
        op.add_argument('--encrypted', action='store_true', default=False)
        op.add_argument('--passphrase')
        return op

class F12_LogVol(F9_LogVol):
    removedKeywords = F9_LogVol.removedKeywords
    removedAttrs = F9_LogVol.removedAttrs

    def _getParser(self):
        op = F9_LogVol._getParser(self)
        op.add_argument('--escrowcert')
        op.add_argument('--backuppassphrase', action='store_true', default=False)
        return op

class RHEL6_LogVol(F12_LogVol):
    removedKeywords = F12_LogVol.removedKeywords
    removedAttrs = F12_LogVol.removedAttrs

    def _getParser(self):
        op = F12_LogVol._getParser(self)
        op.add_argument('--cipher')
        op.add_argument('--hibernation', action='store_true', default=False)
        op.add_argument('--thinpool', action='store_true', dest='thin_pool', default=False)
        op.add_argument('--thin', action='store_true', dest='thin_volume', default=False)
        op.add_argument('--poolname', dest='pool_name')
        op.add_argument('--chunksize', type=int, dest='chunk_size')
        op.add_argument('--metadatasize', type=int, dest='metadata_size')
        op.add_argument('--profile')
        return op

    def parse(self, args):
        retval = F12_LogVol.parse(self, args)
        if self.handler.autopart.seen:
            errorMsg = _("The logvol and autopart commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if retval.thin_volume and retval.thin_pool:
            errorMsg = _('--thin and --thinpool cannot both be specified for the same logvol')
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if retval.thin_volume and (not retval.pool_name):
            errorMsg = _('--thin requires --poolname to specify pool name')
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if (retval.chunk_size or retval.metadata_size) and (not retval.thin_pool):
            errorMsg = _('--chunksize and --metadatasize are for thin pools only')
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F14_LogVol(F12_LogVol):
    removedKeywords = F12_LogVol.removedKeywords
    removedAttrs = F12_LogVol.removedAttrs

    def _getParser(self):
        op = F12_LogVol._getParser(self)
        op.remove_argument('--bytes-per-inode')
        return op

class F15_LogVol(F14_LogVol):
    removedKeywords = F14_LogVol.removedKeywords
    removedAttrs = F14_LogVol.removedAttrs

    def _getParser(self):
        op = F14_LogVol._getParser(self)
        op.add_argument('--label')
        return op

class F17_LogVol(F15_LogVol):
    removedKeywords = F15_LogVol.removedKeywords
    removedAttrs = F15_LogVol.removedAttrs

    def _getParser(self):
        op = F15_LogVol._getParser(self)
        op.add_argument('--resize', action='store_true', default=False)
        return op

    def parse(self, args):
        retval = F15_LogVol.parse(self, args)
        if retval.resize and (not retval.preexist):
            raise KickstartParseError(_('--resize can only be used in conjunction with --useexisting'), lineno=self.lineno)
        if retval.resize and (not retval.size):
            raise KickstartParseError(_('--resize requires --size to indicate new size'), lineno=self.lineno)
        return retval

class F18_LogVol(F17_LogVol):
    removedKeywords = F17_LogVol.removedKeywords
    removedAttrs = F17_LogVol.removedAttrs

    def _getParser(self):
        op = F17_LogVol._getParser(self)
        op.add_argument('--hibernation', action='store_true', default=False)
        op.add_argument('--cipher')
        return op

class F20_LogVol(F18_LogVol):
    removedKeywords = F18_LogVol.removedKeywords
    removedAttrs = F18_LogVol.removedAttrs

    def _getParser(self):
        op = F18_LogVol._getParser(self)
        op.add_argument('--thinpool', action='store_true', dest='thin_pool', default=False)
        op.add_argument('--thin', action='store_true', dest='thin_volume', default=False)
        op.add_argument('--poolname', dest='pool_name')
        op.add_argument('--chunksize', type=int, dest='chunk_size')
        op.add_argument('--metadatasize', type=int, dest='metadata_size')
        return op

    def parse(self, args):
        retval = F18_LogVol.parse(self, args)
        if retval.thin_volume and retval.thin_pool:
            err = _('--thin and --thinpool cannot both be specified for the same logvol')
            raise KickstartParseError(err, lineno=self.lineno)
        if retval.thin_volume and (not retval.pool_name):
            err = _('--thin requires --poolname to specify pool name')
            raise KickstartParseError(err, lineno=self.lineno)
        if (retval.chunk_size or retval.metadata_size) and (not retval.thin_pool):
            err = _('--chunksize and --metadatasize are for thin pools only')
            raise KickstartParseError(err, lineno=self.lineno)
        if self.handler.autopart.seen:
            errorMsg = _("The logvol and autopart commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if hasattr(self.handler, 'mount') and self.handler.mount.seen:
            errorMsg = _("The logvol and mount commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if not retval.preexist and (not retval.percent) and (not retval.size) and (not retval.recommended) and (not retval.hibernation):
            errorMsg = _('No size given for logical volume. Use one of --useexisting, --noformat, --size, --percent, or --hibernation.')
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if retval.percent is not None and (retval.percent < 0 or retval.percent > 100):
            errorMsg = _('Percentage must be between 0 and 100.')
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F21_LogVol(F20_LogVol):
    removedKeywords = F20_LogVol.removedKeywords
    removedAttrs = F20_LogVol.removedAttrs

    def _getParser(self):
        op = F20_LogVol._getParser(self)
        op.add_argument('--profile')
        return op

    def parse(self, args):
        retval = F20_LogVol.parse(self, args)
        if retval.size and retval.percent:
            err = _('--size and --percent cannot both be specified for the same logvol')
            raise KickstartParseError(err, lineno=self.lineno)
        return retval

class RHEL7_LogVol(F21_LogVol):
    removedKeywords = F21_LogVol.removedKeywords
    removedAttrs = F21_LogVol.removedAttrs

    def _getParser(self):
        op = F21_LogVol._getParser(self)
        op.add_argument('--mkfsoptions', dest='mkfsopts')
        return op

    def parse(self, args):
        retval = F21_LogVol.parse(self, args)
        if not retval.format and retval.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions with --noformat has no effect.'), lineno=self.lineno)
        if retval.fsprofile and retval.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions and --fsprofile cannot be used together.'), lineno=self.lineno)
        return retval

class F23_LogVol(F21_LogVol):

    def _getParser(self):
        op = F21_LogVol._getParser(self)
        op.add_argument('--cachesize', type=int, dest='cache_size')
        op.add_argument('--cachemode', dest='cache_mode')
        op.add_argument('--cachepvs', dest='cache_pvs', type=commaSplit)
        op.add_argument('--mkfsoptions', dest='mkfsopts')
        return op

    def parse(self, args):
        retval = F21_LogVol.parse(self, args)
        if retval.cache_size or retval.cache_mode or retval.cache_pvs:
            if retval.preexist:
                err = _('Adding a cache to an existing logical volume is not supported')
                raise KickstartParseError(err, lineno=self.lineno)
            if retval.thin_volume:
                err = _('Thin volumes cannot be cached')
                raise KickstartParseError(err, lineno=self.lineno)
            if not retval.cache_pvs:
                err = _('Cache needs to have a list of (fast) PVs specified')
                raise KickstartParseError(err, lineno=self.lineno)
            if not retval.cache_size:
                err = _('Cache needs to have size specified')
                raise KickstartParseError(err, lineno=self.lineno)
            if retval.cache_mode and retval.cache_mode not in ('writeback', 'writethrough'):
                err = _('Invalid cache mode given: %s') % retval.cache_mode
                raise KickstartParseError(err, lineno=self.lineno)
        if not retval.format and retval.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions with --noformat has no effect.'), lineno=self.lineno)
        if retval.fsprofile and retval.mkfsopts:
            raise KickstartParseError(_('--mkfsoptions and --fsprofile cannot be used together.'), lineno=self.lineno)
        return retval

class F29_LogVol(F23_LogVol):
    removedKeywords = F23_LogVol.removedKeywords
    removedAttrs = F23_LogVol.removedAttrs

    def _getParser(self):
        op = F23_LogVol._getParser(self)
        op.add_argument('--luks-version', dest='luks_version', default='')
        op.add_argument('--pbkdf', default='')
        op.add_argument('--pbkdf-memory', dest='pbkdf_memory', type=int, default=0)
        op.add_argument('--pbkdf-time', dest='pbkdf_time', type=int, default=0)
        op.add_argument('--pbkdf-iterations', dest='pbkdf_iterations', type=int, default=0)
        return op

    def parse(self, args):
        retval = F23_LogVol.parse(self, args)
        if retval.pbkdf_time and retval.pbkdf_iterations:
            msg = _('Only one of --pbkdf-time and --pbkdf-iterations can be specified.')
            raise KickstartParseError(msg, lineno=self.lineno)
        return retval

class RHEL8_LogVol(F29_LogVol):
    removedKeywords = F29_LogVol.removedKeywords
    removedAttrs = F29_LogVol.removedAttrs

    def parse(self, args):
        retval = F29_LogVol.parse(self, args)
        if retval.fstype == 'btrfs':
            raise KickstartParseError(_('Btrfs file system is not supported'), lineno=self.lineno)
        return retval

    def _getParser(self):
        op = F29_LogVol._getParser(self)
        for action in op._actions:
            if '--fstype' in action.option_strings:
                pass
        return op
