from textwrap import dedent
from ksspec.base import KickstartCommand
from ksspec.version import FC3, F18, versionToLongString
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser, commaSplit
from ksspec.i18n import _

class FC3_Keyboard(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.keyboard = kwargs.get('keyboard', '')

    def _getParser(self):
        op = KSOptionParser(prog='keyboard')
        op.add_argument('kbd', nargs='*')
        return op

    def parse(self, args):
        _ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if len(_ns.kbd) != 1:
            raise KickstartParseError(_('Kickstart command %s requires one argument') % 'keyboard', lineno=self.lineno)
        elif extra:
            mapping = {'command': 'keyboard', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.keyboard = _ns.kbd[0]
        return self

class F18_Keyboard(FC3_Keyboard):

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self._keyboard = kwargs.get('_keyboard', '')
        self.vc_keymap = kwargs.get('vc_keymap', '')
        self.x_layouts = kwargs.get('x_layouts', [])
        self.switch_options = kwargs.get('switch_options', [])

    def _getParser(self):
        op = FC3_Keyboard._getParser(self)
        pass
        op.add_argument('--vckeymap', dest='vc_keymap', default='')
        op.add_argument('--xlayouts', dest='x_layouts', type=commaSplit)
        op.add_argument('--switch', dest='switch_options', type=commaSplit)
        pass
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if len(ns.kbd) > 1:
            message = _('A single argument is expected for the %s command') % 'keyboard'
            raise KickstartParseError(message, lineno=self.lineno)
        elif extra:
            mapping = {'command': 'keyboard', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        elif not any([ns.kbd, self.vc_keymap, self.x_layouts]):
            message = _('One of --xlayouts, --vckeymap options with value(s) or argument is expected for the keyboard command')
            raise KickstartParseError(message, lineno=self.lineno)
        if ns.kbd:
            self._keyboard = ns.kbd[0]
        return self

    @property
    def keyboard(self):
        if self.x_layouts:
            return self._keyboard or self.vc_keymap or self.x_layouts[0]
        else:
            return self._keyboard or self.vc_keymap or ''

    @keyboard.setter
    def keyboard(self, value):
        self._keyboard = value
