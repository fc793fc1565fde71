from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.version import RHEL7
from ksspec.i18n import _

class RHEL7_Hmc(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def _getParser(self):
        return KSOptionParser(prog='hmc')

    def parse(self, args):
        if args:
            msg = _('Kickstart command %s does not take any arguments') % self.currentCmd
            raise KickstartParseError(msg, lineno=self.lineno)
        return self

class F28_Hmc(RHEL7_Hmc):
    pass
