from ksspec.version import versionToLongString, FC3, F24, F34
from ksspec.base import BaseData, DeprecatedCommand, KickstartCommand, RemovedCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser
import warnings
from ksspec.i18n import _

class F8_DeviceData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.moduleName = kwargs.get('moduleName', '')
        self.moduleOpts = kwargs.get('moduleOpts', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.moduleName == y.moduleName

    def __ne__(self, y):
        return not self == y

class FC3_Device(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.type = kwargs.get('type', '')
        self.moduleName = kwargs.get('moduleName', '')
        self.moduleOpts = kwargs.get('moduleOpts', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.moduleName == y.moduleName

    def __ne__(self, y):
        return not self == y

    def _getParser(self):
        op = KSOptionParser(prog='device')
        op.add_argument('--opts', dest='moduleOpts', default='')
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(extra) != 2:
            raise KickstartParseError(_('device command requires two arguments: module type and name'), lineno=self.lineno)
        elif any((arg for arg in extra if arg.startswith('-'))):
            mapping = {'command': 'device', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.moduleOpts = ns.moduleOpts
        self.type = extra[0]
        self.moduleName = extra[1]
        return self

class F8_Device(FC3_Device):
    removedKeywords = FC3_Device.removedKeywords
    removedAttrs = FC3_Device.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_Device.__init__(self, writePriority, *args, **kwargs)
        self.deviceList = kwargs.get('deviceList', [])

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(extra) != 1:
            raise KickstartParseError(_('%(command)s command requires a single argument: %(argument)s') % {'command': 'device', 'argument': 'module name'}, lineno=self.lineno)
        elif any((arg for arg in extra if arg.startswith('-'))):
            mapping = {'command': 'device', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        dd = self.dataClass()
        self.set_to_obj(ns, dd)
        dd.lineno = self.lineno
        dd.moduleName = extra[0]
        if dd in self.dataList():
            warnings.warn(_('A module with the name %s has already been defined.') % dd.moduleName, KickstartParseWarning)
        return dd

    def dataList(self):
        return self.deviceList

    @property
    def dataClass(self):
        return self.handler.DeviceData

class F24_Device(DeprecatedCommand, F8_Device):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = F8_Device._getParser(self)
        pass
        return op

class F34_Device(RemovedCommand, F24_Device):

    def _getParser(self):
        op = F24_Device._getParser(self)
        pass
        return op
