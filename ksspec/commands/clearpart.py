from ksspec.version import FC3, F17, F21, F28
from ksspec.base import KickstartCommand
from ksspec.constants import CLEARPART_TYPE_ALL, CLEARPART_TYPE_LINUX, CLEARPART_TYPE_LIST, CLEARPART_TYPE_NONE
from ksspec.options import KSOptionParser, commaSplit

class FC3_ClearPart(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=120, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.drives = kwargs.get('drives', [])
        self.initAll = kwargs.get('initAll', False)
        self.type = kwargs.get('type', None)

    def _getParser(self):
        op = KSOptionParser(prog='clearpart')
        op.add_argument('--all', dest='type', action='store_const', const=CLEARPART_TYPE_ALL)
        op.add_argument('--drives', type=commaSplit)
        op.add_argument('--initlabel', dest='initAll', action='store_true', default=False)
        op.add_argument('--linux', dest='type', action='store_const', const=CLEARPART_TYPE_LINUX)
        op.add_argument('--none', dest='type', action='store_const', const=CLEARPART_TYPE_NONE)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class F17_ClearPart(FC3_ClearPart):

    def __init__(self, *args, **kwargs):
        super(F17_ClearPart, self).__init__(*args, **kwargs)
        self.devices = kwargs.get('devices', [])

    def _getParser(self):
        op = FC3_ClearPart._getParser(self)
        op.add_argument('--list', dest='devices', type=commaSplit)
        return op

    def parse(self, args):
        obj = FC3_ClearPart.parse(self, args)
        if getattr(obj, 'devices', []):
            obj.type = CLEARPART_TYPE_LIST
        return obj

class F21_ClearPart(F17_ClearPart):

    def __init__(self, *args, **kwargs):
        super(F21_ClearPart, self).__init__(*args, **kwargs)
        self.disklabel = kwargs.get('disklabel', '')

    def _getParser(self):
        op = F17_ClearPart._getParser(self)
        op.add_argument('--disklabel', default='')
        return op

class F28_ClearPart(F21_ClearPart):

    def __init__(self, *args, **kwargs):
        super(F28_ClearPart, self).__init__(*args, **kwargs)
        self.cdl = kwargs.get('cdl', False)

    def _getParser(self):
        op = super(F28_ClearPart, self)._getParser()
        op.add_argument('--cdl', dest='cdl', default=False, action='store_true')
        return op

class RHEL7_ClearPart(F28_ClearPart):
    pass
