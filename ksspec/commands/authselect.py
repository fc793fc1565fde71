from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser
from ksspec.version import F28

class F28_Authselect(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.authselect = kwargs.get('authselect', '')

    def parse(self, args):
        self.authselect = self.currentLine.strip()[len(self.currentCmd):].strip()
        return self

    def _getParser(self):
        op = KSOptionParser(prog='authselect')
        op.add_argument('options')
        return op
