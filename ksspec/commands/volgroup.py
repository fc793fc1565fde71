from ksspec.version import FC3, F16, F21
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser
import warnings
from ksspec.i18n import _

class FC3_VolGroupData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.format = kwargs.get('format', True)
        self.pesize = kwargs.get('pesize', 32768)
        self.preexist = kwargs.get('preexist', False)
        self.vgname = kwargs.get('vgname', '')
        self.physvols = kwargs.get('physvols', [])

    def __eq__(self, y):
        if not y:
            return False
        return self.vgname == y.vgname

    def __ne__(self, y):
        return not self == y

class F16_VolGroupData(FC3_VolGroupData):

    def __init__(self, *args, **kwargs):
        FC3_VolGroupData.__init__(self, *args, **kwargs)
        self.reserved_space = kwargs.get('reserved-space', None) or kwargs.get('reserved_space', None)
        self.reserved_percent = kwargs.get('reserved-percent', None) or kwargs.get('reserved_percent', None)

class F21_VolGroupData(F16_VolGroupData):

    def __init__(self, *args, **kwargs):
        F16_VolGroupData.__init__(self, *args, **kwargs)
        self.pesize = kwargs.get('pesize', 0)

class RHEL7_VolGroupData(F21_VolGroupData):
    pass

class RHEL8_VolGroupData(F21_VolGroupData):
    pass

class FC3_VolGroup(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=132, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.vgList = kwargs.get('vgList', [])

    def _getParser(self):
        op = KSOptionParser(prog='volgroup')
        op.add_argument('name', nargs='*')
        op.add_argument('partitions', nargs='*')
        op.add_argument('--noformat', dest='format', action='store_false', default=True)
        op.add_argument('--pesize', type=int, default=32768)
        op.add_argument('--useexisting', dest='preexist', action='store_true', default=False)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if any((arg for arg in extra if arg.startswith('-'))):
            raise KickstartParseError(_('Unexpected arguments'), lineno=self.lineno)
        if not ns.partitions and ns.name:
            ns.partitions = ns.name[1:] + extra
            ns.name = [ns.name[0]]
        if not ns.format:
            ns.preexist = True
        vg = self.dataClass()
        self.set_to_obj(ns, vg)
        vg.lineno = self.lineno
        if not ns.name:
            raise KickstartParseError(_('volgroup must be given a VG name'), lineno=self.lineno)
        if not any([ns.partitions, ns.preexist]):
            raise KickstartParseError(_('volgroup must be given a list of partitions'), lineno=self.lineno)
        elif ns.partitions and ns.preexist:
            raise KickstartParseError(_('Members may not be specified for preexisting volgroup'), lineno=self.lineno)
        vg.vgname = ns.name[0]
        if ns.partitions:
            vg.physvols = ns.partitions
        if vg in self.dataList():
            warnings.warn(_('A volgroup with the name %s has already been defined.') % vg.vgname, KickstartParseWarning)
        return vg

    def dataList(self):
        return self.vgList

    @property
    def dataClass(self):
        return self.handler.VolGroupData

class F16_VolGroup(FC3_VolGroup):

    def _getParser(self):
        op = FC3_VolGroup._getParser(self)
        op.add_argument('--reserved-space', dest='reserved_space', type=int)
        op.add_argument('--reserved-percent', dest='reserved_percent', type=int)
        return op

    def parse(self, args):
        retval = FC3_VolGroup.parse(self, args)
        if retval.reserved_space is not None and retval.reserved_space < 0:
            raise KickstartParseError('Volume group reserved space must be a positive integer.', lineno=self.lineno)
        if retval.reserved_percent is not None and (not 0 < retval.reserved_percent < 100):
            raise KickstartParseError('Volume group reserved space percentage must be between 1 and 99.', lineno=self.lineno)
        if self.handler.autopart.seen:
            errorMsg = _("The volgroup and autopart commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if hasattr(self.handler, 'mount') and self.handler.mount.seen:
            errorMsg = _("The volgroup and mount commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F21_VolGroup(F16_VolGroup):

    def _getParser(self):
        op = F16_VolGroup._getParser(self)
        op.add_argument('--pesize', type=int, default=0)
        return op

class RHEL7_VolGroup(F21_VolGroup):
    pass

class RHEL8_VolGroup(F21_VolGroup):
    pass
