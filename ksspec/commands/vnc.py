from ksspec.version import FC3, FC6, F9
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class FC3_Vnc(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.enabled = kwargs.get('enabled', False)
        self.password = kwargs.get('password', '')
        self.connect = kwargs.get('connect', '')

    def _getParser(self):
        op = KSOptionParser(prog='vnc')
        op.add_argument('--connect')
        op.add_argument('--password')
        return op

    def parse(self, args):
        self.enabled = True
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class FC6_Vnc(FC3_Vnc):
    removedKeywords = FC3_Vnc.removedKeywords + ['connect']
    removedAttrs = FC3_Vnc.removedAttrs + ['connect']

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_Vnc.__init__(self, writePriority, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.host = kwargs.get('host', '')
        self.port = kwargs.get('port', '')

    def _getParser(self):
        op = FC3_Vnc._getParser(self)
        op.add_argument('--connect', dest='_connect')
        op.add_argument('--host')
        op.add_argument('--port')
        return op

    def parse(self, args):
        retval = FC3_Vnc.parse(self, args)
        if getattr(retval, '_connect', None):
            cargs = retval._connect.split(':')
            retval.host = cargs[0]
            if len(cargs) > 1:
                retval.port = cargs[1]
            del retval._connect
        return retval

class F9_Vnc(FC6_Vnc):
    removedKeywords = FC6_Vnc.removedKeywords
    removedAttrs = FC6_Vnc.removedAttrs

    def _getParser(self):
        op = FC6_Vnc._getParser(self)
        op.remove_argument('--connect')
        return op
