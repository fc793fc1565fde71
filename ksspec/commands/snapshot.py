from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.constants import SNAPSHOT_WHEN_POST_INSTALL, SNAPSHOT_WHEN_PRE_INSTALL
from ksspec.version import F26
from ksspec.i18n import _

class F26_SnapshotData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.name = kwargs.get('name', '')
        self.origin = kwargs.get('origin', '')
        self.when = kwargs.get('when', None)

    def __eq__(self, y):
        if not y:
            return False
        return self.name == y.name and self.origin == y.origin and (self.when == y.when)

    def __ne__(self, y):
        return not self == y

class F26_Snapshot(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=140, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.snapshotList = kwargs.get('snapshotList', [])
        self.whenMap = {'post-install': SNAPSHOT_WHEN_POST_INSTALL, 'pre-install': SNAPSHOT_WHEN_PRE_INSTALL}
        self.op = self._getParser()

    def _when_cb(self, value):
        if value.lower() in self.whenMap:
            return self.whenMap[value.lower()]
        else:
            msg = _('Invalid parameter to --when= argument: %s') % value
            raise KickstartParseError(msg, lineno=self.lineno)

    def _getParser(self):
        op = KSOptionParser(prog='snapshot')
        op.add_argument('origin')
        op.add_argument('--name', required=True)
        meta_msg = '<%s>' % '|'.join(self.whenMap.keys())
        op.add_argument('--when', type=self._when_cb, required=True)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        snap_data = self.dataClass()
        self.set_to_obj(ns, snap_data)
        snap_data.lineno = self.lineno
        if snap_data.name in [snap.name for snap in self.dataList()]:
            msg = _('Snapshot with the name %s has been already defined!') % snap_data.name
            raise KickstartParseError(msg, lineno=self.lineno)
        if snap_data.when is None:
            msg = _('Snapshot "when" parameter must be specified!')
            raise KickstartParseError(msg, lineno=self.lineno)
        groups = snap_data.origin.split('/')
        if len(groups) != 2 or len(groups[0]) == 0 or len(groups[1]) == 0:
            msg = _('Snapshot origin %s must be specified by VG/LV!') % snap_data.origin
            raise KickstartParseError(msg, lineno=self.lineno)
        if snap_data.when != '' and snap_data.when not in self.whenMap.values():
            msg = _('Snapshot when param must have one of these values %s!') % self.whenMap.keys()
            raise KickstartParseError(msg, lineno=self.lineno)
        return snap_data

    def dataList(self):
        return self.snapshotList

    @property
    def dataClass(self):
        return self.handler.SnapshotData
