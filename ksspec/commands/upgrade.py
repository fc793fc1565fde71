from textwrap import dedent
from ksspec.version import versionToLongString, FC3, F11, F20, F29
from ksspec.base import DeprecatedCommand, KickstartCommand, RemovedCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_Upgrade(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.upgrade = kwargs.get('upgrade', None)
        self.op = self._getParser()

    def _getParser(self):
        op = KSOptionParser(prog='install|upgrade')
        return op

    def parse(self, args):
        self.op.parse_args(args=args, lineno=self.lineno)
        if self.currentCmd == 'upgrade':
            self.upgrade = True
        else:
            self.upgrade = False
        return self

class F11_Upgrade(FC3_Upgrade):
    removedKeywords = FC3_Upgrade.removedKeywords
    removedAttrs = FC3_Upgrade.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_Upgrade.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.root_device = kwargs.get('root_device', None)

    def _getParser(self):
        op = FC3_Upgrade._getParser(self)
        op.add_argument('--root-device', dest='root_device')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        if ns.root_device == '':
            raise KickstartParseError(_('Kickstart command %(command)s does not accept empty parameter %(parameter)s') % {'command': 'upgrade', 'parameter': '--root-device'}, lineno=self.lineno)
        else:
            self.root_device = ns.root_device
        if self.currentCmd == 'upgrade':
            self.upgrade = True
        else:
            self.upgrade = False
        return self

class F20_Upgrade(DeprecatedCommand, F11_Upgrade):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = F11_Upgrade._getParser(self)
        pass
        return op

class F29_Upgrade(RemovedCommand, F20_Upgrade):

    def _getParser(self):
        op = F20_Upgrade._getParser(self)
        pass
        return op
