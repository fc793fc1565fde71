from ksspec.version import FC3, F26
from ksspec.base import KickstartCommand
from ksspec.constants import DISPLAY_MODE_CMDLINE, DISPLAY_MODE_GRAPHICAL, DISPLAY_MODE_TEXT
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_DisplayMode(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.displayMode = kwargs.get('displayMode', None)
        self.op = self._getParser()

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if self.currentCmd == 'cmdline':
            self.displayMode = DISPLAY_MODE_CMDLINE
        elif self.currentCmd == 'graphical':
            self.displayMode = DISPLAY_MODE_GRAPHICAL
        elif self.currentCmd == 'text':
            self.displayMode = DISPLAY_MODE_TEXT
        else:
            raise KickstartParseError(_('Unknown command %s') % self.currentCmd, lineno=self.lineno)
        return self

    def _getParser(self):
        op = KSOptionParser(prog='graphical|text|cmdline')
        return op

class F26_DisplayMode(FC3_DisplayMode):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_DisplayMode.__init__(self, writePriority, args, kwargs)
        self.nonInteractive = kwargs.get('nonInteractive', False)

    def _getParser(self):
        op = FC3_DisplayMode._getParser(self)
        op.add_argument('--non-interactive', action='store_true', default=False, dest='nonInteractive')
        return op

    def parse(self, args):
        FC3_DisplayMode.parse(self, args)
        if self.currentCmd == 'cmdline' and self.nonInteractive:
            msg = _('Kickstart command cmdline does not support --non-interactive parameter')
            raise KickstartParseError(msg, lineno=self.lineno)
        return self
