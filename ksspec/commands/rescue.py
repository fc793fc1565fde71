from ksspec.version import F10
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class F10_Rescue(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.rescue = False
        self.nomount = kwargs.get('nomount', False)
        self.romount = kwargs.get('romount', False)

    def _getParser(self):
        op = KSOptionParser(prog='rescue')
        op.add_argument('--nomount', action='store_true', default=False)
        op.add_argument('--romount', action='store_true', default=False)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        if ns.nomount and ns.romount:
            raise KickstartParseError(_('Only one of --nomount and --romount may be specified for rescue command.'), lineno=self.lineno)
        self.set_to_self(ns)
        self.rescue = True
        return self
