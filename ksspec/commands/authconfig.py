import warnings
from textwrap import dedent
from ksspec.errors import KickstartDeprecationWarning
from ksspec.version import FC3, versionToLongString, F28
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class FC3_Authconfig(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.authconfig = kwargs.get('authconfig', '')

    def parse(self, args):
        self.authconfig = self.currentLine.strip()[len(self.currentCmd):].strip()
        return self

    def _getParser(self):
        op = KSOptionParser(prog='auth|authconfig')
        op.add_argument('options')
        return op

class F28_Authconfig(FC3_Authconfig):
    removedKeywords = FC3_Authconfig.removedKeywords
    removedAttrs = FC3_Authconfig.removedAttrs

    def parse(self, args):
        warnings.warn('The authconfig command will be deprecated, use authselect instead.', KickstartDeprecationWarning)
        return super(F28_Authconfig, self).parse(args)

    def _getParser(self):
        op = super(F28_Authconfig, self)._getParser()
        pass
        return op
