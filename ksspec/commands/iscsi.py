from ksspec.version import FC6, F10, RHEL6, F17, versionToLongString
from ksspec.base import BaseData, KickstartCommand
from ksspec.options import KSOptionParser

class FC6_IscsiData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.ipaddr = kwargs.get('ipaddr', '')
        self.port = kwargs.get('port', 3260)
        self.target = kwargs.get('target', '')
        self.user = kwargs.get('user', None)
        self.password = kwargs.get('password', None)

class F10_IscsiData(FC6_IscsiData):
    removedKeywords = FC6_IscsiData.removedKeywords
    removedAttrs = FC6_IscsiData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC6_IscsiData.__init__(self, *args, **kwargs)
        self.user_in = kwargs.get('user_in', None)
        self.password_in = kwargs.get('password_in', None)

class RHEL6_IscsiData(F10_IscsiData):
    removedKeywords = F10_IscsiData.removedKeywords
    removedAttrs = F10_IscsiData.removedAttrs

    def __init__(self, *args, **kwargs):
        F10_IscsiData.__init__(self, *args, **kwargs)
        self.iface = kwargs.get('iface', None)

class F17_IscsiData(RHEL6_IscsiData):
    pass

class FC6_Iscsi(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=71, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.iscsi = kwargs.get('iscsi', [])

    def _getParser(self):
        op = KSOptionParser(prog='iscsi')
        op.add_argument('--target')
        op.add_argument('--ipaddr', required=True)
        op.add_argument('--port', type=int)
        op.add_argument('--user')
        op.add_argument('--password')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        dd = self.dataClass()
        self.set_to_obj(ns, dd)
        dd.lineno = self.lineno
        return dd

    def dataList(self):
        return self.iscsi

    @property
    def dataClass(self):
        return self.handler.IscsiData

class F10_Iscsi(FC6_Iscsi):
    removedKeywords = FC6_Iscsi.removedKeywords
    removedAttrs = FC6_Iscsi.removedAttrs

    def _getParser(self):
        op = FC6_Iscsi._getParser(self)
        op.add_argument('--reverse-user', dest='user_in')
        op.add_argument('--reverse-password', dest='password_in')
        return op

class RHEL6_Iscsi(F10_Iscsi):
    removedKeywords = F10_Iscsi.removedKeywords
    removedAttrs = F10_Iscsi.removedAttrs

    def _getParser(self):
        op = F10_Iscsi._getParser(self)
        op.add_argument('--iface')
        return op

class F17_Iscsi(RHEL6_Iscsi):

    def _getParser(self):
        op = super(F17_Iscsi, self)._getParser()
        for action in op._actions:
            if '--iface' in action.option_strings:
                pass
        return op
