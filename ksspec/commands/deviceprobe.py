from ksspec.version import FC3, F29, F34, versionToLongString
from ksspec.base import KickstartCommand, DeprecatedCommand, RemovedCommand
from ksspec.options import KSOptionParser

class FC3_DeviceProbe(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.deviceprobe = kwargs.get('deviceprobe', '')

    def parse(self, args):
        self.deviceprobe = ' '.join(args)
        return self

    def _getParser(self):
        return KSOptionParser(prog='deviceprobe')

class F29_DeviceProbe(DeprecatedCommand, FC3_DeviceProbe):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = FC3_DeviceProbe._getParser(self)
        pass
        return op

class F34_DeviceProbe(RemovedCommand, F29_DeviceProbe):

    def _getParser(self):
        op = F29_DeviceProbe._getParser(self)
        pass
        return op
