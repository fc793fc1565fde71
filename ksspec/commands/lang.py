from ksspec.version import FC3, F19
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser, commaSplit
from ksspec.i18n import _

class FC3_Lang(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.lang = kwargs.get('lang', '')

    def _getParser(self):
        op = KSOptionParser(prog='lang')
        op.add_argument('lang', nargs=1)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        assert len(ns.lang) == 1
        if extra:
            mapping = {'command': 'lang', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.set_to_self(ns)
        self.lang = ns.lang[0]
        return self

class F19_Lang(FC3_Lang):
    removedKeywords = FC3_Lang.removedKeywords
    removedAttrs = FC3_Lang.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_Lang.__init__(self, writePriority, *args, **kwargs)
        self.addsupport = kwargs.get('addsupport', [])
        self.op = self._getParser()

    def _getParser(self):
        op = FC3_Lang._getParser(self)
        op.add_argument('--addsupport', type=commaSplit)
        return op
