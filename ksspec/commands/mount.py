from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser, mountpoint
from ksspec.version import F27
from ksspec.i18n import _

class F27_MountData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.mount_point = kwargs.get('mount_point', '')
        self.device = kwargs.get('device', '')
        self.format = kwargs.get('format', '')
        self.reformat = kwargs.get('reformat', False)
        self.mkfs_opts = kwargs.get('mkfs_opts', '')
        self.mount_opts = kwargs.get('mount_opts', '')

    def __eq__(self, other):
        if not other:
            return False
        return self.mount_point == other.mount_point

    def __ne__(self, other):
        return not self == other

class F27_Mount(KickstartCommand):

    def __init__(self, *args, **kwargs):
        KickstartCommand.__init__(self, *args, **kwargs)
        self.op = self._getParser()
        self.mount_points = kwargs.get('mount_points') or list()

    def _getParser(self):
        op = KSOptionParser(prog='mount')
        op.add_argument('device', nargs=1)
        op.add_argument('mntpoint', type=mountpoint, nargs=1)
        op.add_argument('--reformat', dest='reformat', nargs='?', const=True, default=False)
        op.add_argument('--mkfsoptions', dest='mkfs_opts', action='store')
        op.add_argument('--mountoptions', dest='mount_opts', action='store')
        return op

    def parse(self, args):
        conflicting_command = None
        if self.handler.autopart.seen:
            conflicting_command = 'autopart'
        if self.handler.partition.seen:
            conflicting_command = 'part/partition'
        elif self.handler.raid.seen:
            conflicting_command = 'raid'
        elif self.handler.volgroup.seen:
            conflicting_command = 'volgroup'
        elif self.handler.logvol.seen:
            conflicting_command = 'logvol'
        elif hasattr(self.handler, 'reqpart') and self.handler.reqpart.seen:
            conflicting_command = 'reqpart'
        if conflicting_command:
            errorMsg = _("The '%s' and 'mount' commands can't be used at the same time") % conflicting_command
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if extra:
            mapping = {'command': 'mount', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        md = self.dataClass()
        self.set_to_obj(ns, md)
        md.lineno = self.lineno
        md.device = ns.device[0]
        md.mount_point = ns.mntpoint[0]
        if md.mount_point.lower() != 'none' and (not md.mount_point.startswith('/')):
            raise KickstartParseError(_("Invalid mount point '%s' given") % md.mount_point, lineno=self.lineno)
        if md.reformat is False and md.mkfs_opts:
            raise KickstartParseError(_("'--mkfsoptions' requires --reformat"), lineno=self.lineno)
        if md.reformat and md.reformat is not True:
            md.format = md.reformat
            md.reformat = True
        return md

    def dataList(self):
        return self.mount_points

    @property
    def dataClass(self):
        return self.handler.MountData
