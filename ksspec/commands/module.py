from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.version import F29, RHEL8
from ksspec.i18n import _

class F29_ModuleData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.name = kwargs.get('name', '')
        self.stream = kwargs.get('stream', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.name == y.name and self.stream == y.stream

    def __ne__(self, y):
        return not self == y

class RHEL8_ModuleData(F29_ModuleData):
    removedKeywords = F29_ModuleData.removedKeywords
    removedAttrs = F29_ModuleData.removedAttrs

    def __init__(self, *args, **kwargs):
        F29_ModuleData.__init__(self, *args, **kwargs)
        self.enable = kwargs.get('enable', True)

class F31_ModuleData(RHEL8_ModuleData):
    removedKeywords = RHEL8_ModuleData.removedKeywords
    removedAttrs = RHEL8_ModuleData.removedAttrs

class F29_Module(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.moduleList = kwargs.get('moduleList', [])
        self.op = self._getParser()

    def _getParser(self):
        op = KSOptionParser(prog='module')
        op.add_argument('--name', required=True)
        op.add_argument('--stream', required=False)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(extra) > 0:
            msg = _('The enable module command does not take position arguments!')
            raise KickstartParseError(msg, lineno=self.lineno)
        enable_module_data = self.dataClass()
        self.set_to_obj(ns, enable_module_data)
        enable_module_data.lineno = self.lineno
        return enable_module_data

    def dataList(self):
        return self.moduleList

    @property
    def dataClass(self):
        return self.handler.ModuleData

class RHEL8_Module(F29_Module):
    removedKeywords = F29_Module.removedKeywords
    removedAttrs = F29_Module.removedAttrs

    def _getParser(self):
        op = F29_Module._getParser(self)
        op.add_argument('--disable', action='store_false', dest='enable')
        return op

class F31_Module(RHEL8_Module):
    removedKeywords = RHEL8_Module.removedKeywords
    removedAttrs = RHEL8_Module.removedAttrs
