from ksspec.version import versionToLongString, FC6, F24, F34
from ksspec.base import BaseData, DeprecatedCommand, KickstartCommand, RemovedCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC6_MpPathData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.mpdev = kwargs.get('mpdev', '')
        self.device = kwargs.get('device', '')
        self.rule = kwargs.get('rule', '')
        self.name = ''

class FC6_MultiPathData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.name = kwargs.get('name', '')
        self.paths = kwargs.get('paths', [])

class FC6_MultiPath(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=50, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.mpaths = kwargs.get('mpaths', [])

    def _getParser(self):
        op = KSOptionParser(prog='multipath')
        op.add_argument('--name', required=True)
        op.add_argument('--device', required=True)
        op.add_argument('--rule', required=True)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        dd = FC6_MpPathData()
        self.set_to_obj(ns, dd)
        dd.lineno = self.lineno
        dd.mpdev = dd.name.split('/')[-1]
        parent = None
        for x in range(0, len(self.mpaths)):
            mpath = self.mpaths[x]
            for path in mpath.paths:
                if path.device == dd.device:
                    mapping = {'device': path.device, 'multipathdev': path.mpdev}
                    raise KickstartParseError(_("Device '%(device)s' is already used in multipath '%(multipathdev)s'") % mapping, lineno=self.lineno)
            if mpath.name == dd.mpdev:
                parent = x
        if not parent:
            mpath = self.dataClass(name=dd.name)
            mpath.paths.append(dd)
            return mpath
        else:
            mpath = self.mpaths[parent]
            mpath.paths.append(dd)
            return dd

    def dataList(self):
        return self.mpaths

    @property
    def dataClass(self):
        return self.handler.MultiPathData

class F24_MultiPath(DeprecatedCommand, FC6_MultiPath):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = FC6_MultiPath._getParser(self)
        pass
        return op

class F34_MultiPath(RemovedCommand, F24_MultiPath):

    def _getParser(self):
        op = F24_MultiPath._getParser(self)
        pass
        return op
