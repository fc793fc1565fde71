from ksspec.version import FC3
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_Cdrom(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def parse(self, args):
        if args:
            raise KickstartParseError(_('Kickstart command %s does not take any arguments') % self.currentCmd, lineno=self.lineno)
        return self

    def _getParser(self):
        return KSOptionParser(prog='cdrom')
