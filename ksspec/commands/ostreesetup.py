from ksspec.version import F21
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser

class F21_OSTreeSetup(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, *args, **kwargs):
        KickstartCommand.__init__(self, *args, **kwargs)
        self.op = self._getParser()
        self.osname = kwargs.get('osname', None)
        self.remote = kwargs.get('remote', self.osname)
        self.url = kwargs.get('url', None)
        self.ref = kwargs.get('ref', None)
        self.nogpg = kwargs.get('nogpg', False)

    def _getParser(self):
        op = KSOptionParser(prog='ostreesetup')
        op.add_argument('--osname', required=True)
        op.add_argument('--remote')
        op.add_argument('--url', required=True)
        op.add_argument('--ref', required=True)
        op.add_argument('--nogpg', action='store_true')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if not self.remote:
            self.remote = self.osname
        if not self.url.startswith(('file:', 'http:', 'https:')):
            raise KickstartParseError('ostree repos must use file, HTTP or HTTPS protocol.', lineno=self.lineno)
        return self

class RHEL7_OSTreeSetup(F21_OSTreeSetup):
    pass

class RHEL8_OSTreeSetup(F21_OSTreeSetup):
    pass
