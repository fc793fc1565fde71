from ksspec.version import FC3, FC4, F12, F14
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_DriverDiskData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.partition = kwargs.get('partition', '')
        self.source = kwargs.get('source', '')
        self.type = kwargs.get('type', '')

class FC4_DriverDiskData(FC3_DriverDiskData):
    removedKeywords = FC3_DriverDiskData.removedKeywords
    removedAttrs = FC3_DriverDiskData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC3_DriverDiskData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.biospart = kwargs.get('biospart', '')

class F12_DriverDiskData(FC4_DriverDiskData):
    removedKeywords = FC4_DriverDiskData.removedKeywords + ['type']
    removedAttrs = FC4_DriverDiskData.removedAttrs + ['type']

    def __init__(self, *args, **kwargs):
        FC4_DriverDiskData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()

class F14_DriverDiskData(F12_DriverDiskData):
    pass

class FC3_DriverDisk(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.driverdiskList = kwargs.get('driverdiskList', [])

    def _getParser(self):
        op = KSOptionParser(prog='driverdisk')
        op.add_argument('partition', nargs='*')
        op.add_argument('--source')
        op.add_argument('--type')
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(ns.partition) > 1:
            raise KickstartParseError(_('Only one partition may be specified for driverdisk command.'), lineno=self.lineno)
        elif extra:
            mapping = {'command': 'driverdisk', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        if ns.partition and ns.source:
            raise KickstartParseError(_('Only one of --source and partition may be specified for driverdisk command.'), lineno=self.lineno)
        if not ns.partition and (not ns.source):
            raise KickstartParseError(_('One of --source or partition must be specified for driverdisk command.'), lineno=self.lineno)
        ddd = self.dataClass()
        self.set_to_obj(ns, ddd)
        ddd.lineno = self.lineno
        if ns.partition:
            ddd.partition = ns.partition[0]
        return ddd

    def dataList(self):
        return self.driverdiskList

    @property
    def dataClass(self):
        return self.handler.DriverDiskData

class FC4_DriverDisk(FC3_DriverDisk):
    removedKeywords = FC3_DriverDisk.removedKeywords
    removedAttrs = FC3_DriverDisk.removedKeywords

    def _getParser(self):
        op = FC3_DriverDisk._getParser(self)
        op.add_argument('--biospart')
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(ns.partition) > 1:
            raise KickstartParseError(_('Only one partition may be specified for driverdisk command.'), lineno=self.lineno)
        elif extra:
            mapping = {'command': 'driverdisk', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        if ns.partition and ns.source:
            raise KickstartParseError(_('Only one of --source and partition may be specified for driverdisk command.'), lineno=self.lineno)
        elif ns.partition and ns.biospart:
            raise KickstartParseError(_('Only one of --biospart and partition may be specified for driverdisk command.'), lineno=self.lineno)
        elif ns.source and ns.biospart:
            raise KickstartParseError(_('Only one of --biospart and --source may be specified for driverdisk command.'), lineno=self.lineno)
        if not ns.partition and (not ns.source) and (not ns.biospart):
            raise KickstartParseError(_('One of --source, --biospart, or partition must be specified for driverdisk command.'), lineno=self.lineno)
        ddd = self.dataClass()
        self.set_to_obj(ns, ddd)
        ddd.lineno = self.lineno
        if ns.partition:
            ddd.partition = ns.partition[0]
        return ddd

class F12_DriverDisk(FC4_DriverDisk):
    removedKeywords = FC4_DriverDisk.removedKeywords
    removedAttrs = FC4_DriverDisk.removedKeywords

    def _getParser(self):
        op = FC4_DriverDisk._getParser(self)
        op.add_argument('--type')
        return op

class F14_DriverDisk(F12_DriverDisk):
    removedKeywords = F12_DriverDisk.removedKeywords
    removedAttrs = F12_DriverDisk.removedKeywords

    def _getParser(self):
        op = F12_DriverDisk._getParser(self)
        op.remove_argument('--type')
        return op
