from ksspec.base import DeprecatedCommand, RemovedCommand
from ksspec.version import F20, F29, F34, versionToLongString
from ksspec.commands.upgrade import F11_Upgrade

class F20_Install(F11_Upgrade):

    def _getParser(self):
        op = super(F20_Install, self)._getParser()
        op.prog = 'install'
        pass
        op.version = F20
        return op

    def parse(self, args):
        super(F20_Install, self).parse(args)
        self.upgrade = False
        return self

class F29_Install(DeprecatedCommand, F20_Install):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = F20_Install._getParser(self)
        pass
        return op

class F34_Install(RemovedCommand, F29_Install):

    def _getParser(self):
        op = F29_Install._getParser(self)
        pass
        return op
