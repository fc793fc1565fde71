from ksspec.version import FC3, FC5, F7, versionToLongString
from ksspec.base import DeprecatedCommand, KickstartCommand, RemovedCommand
from ksspec.errors import KickstartParseError
from ksspec.i18n import _
from ksspec.options import KSOptionParser

class FC3_LangSupport(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.deflang = kwargs.get('deflang', '')
        self.supported = kwargs.get('supported', [])

    def _getParser(self):
        op = KSOptionParser(prog='langsupport')
        op.add_argument('--default', dest='deflang', default='en_US.UTF-8')
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if any((arg for arg in extra if arg.startswith('-'))):
            mapping = {'command': 'langsupport', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.set_to_self(ns)
        self.supported = extra
        return self

class FC5_LangSupport(DeprecatedCommand, FC3_LangSupport):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = FC3_LangSupport._getParser(self)
        pass
        return op

class F7_LangSupport(RemovedCommand, FC5_LangSupport):

    def _getParser(self):
        op = FC5_LangSupport._getParser(self)
        pass
        return op
