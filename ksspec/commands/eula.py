from ksspec.version import F20
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class F20_Eula(KickstartCommand):

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.agreed = kwargs.get('agreed', False)

    def _getParser(self):
        op = KSOptionParser(prog='eula')
        op.add_argument('--agreed', '--agree', '--accepted', '--accept', dest='agreed', action='store_true', default=False)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if extra:
            raise KickstartParseError(_('Kickstart command %s does not take any arguments') % 'eula', lineno=self.lineno)
        if not self.agreed:
            raise KickstartParseError(_('Kickstart command eula expects the --agreed option'), lineno=self.lineno)
        return self
