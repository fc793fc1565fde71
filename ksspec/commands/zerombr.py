import warnings
from ksspec.errors import KickstartDeprecationWarning
from ksspec.version import FC3
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_ZeroMbr(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=110, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.zerombr = kwargs.get('zerombr', False)

    def _getParser(self):
        op = KSOptionParser(prog='zerombr')
        return op

    def parse(self, args):
        extra = self.op.parse_known_args(args=args, lineno=self.lineno)[1]
        if extra:
            warnings.warn(_('Ignoring deprecated option on line %s:  The zerombr command no longer takes any options.  In future releases, this will result in a fatal error from kickstart.  Please modify your kickstart file to remove any options.') % self.lineno, KickstartDeprecationWarning)
        self.zerombr = True
        return self

class F9_ZeroMbr(FC3_ZeroMbr):
    removedKeywords = FC3_ZeroMbr.removedKeywords
    removedAttrs = FC3_ZeroMbr.removedAttrs

    def parse(self, args):
        self.op.parse_args(args=args, lineno=self.lineno)
        self.zerombr = True
        return self
