from textwrap import dedent
from ksspec.version import versionToLongString, FC3, FC6, F18, F23
from ksspec.base import KickstartCommand
from ksspec.constants import KS_REBOOT, KS_SHUTDOWN, KS_WAIT
from ksspec.options import KSOptionParser

class FC3_Reboot(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.action = kwargs.get('action', None)

    def parse(self, args):
        if self.currentCmd == 'reboot':
            self.action = KS_REBOOT
        elif self.currentCmd in ['shutdown', 'poweroff']:
            self.action = KS_SHUTDOWN
        return self

    def _getParser(self):
        op = KSOptionParser(prog='reboot|poweroff|shutdown')
        return op

class FC6_Reboot(FC3_Reboot):
    removedKeywords = FC3_Reboot.removedKeywords
    removedAttrs = FC3_Reboot.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_Reboot.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.eject = kwargs.get('eject', False)

    def _getParser(self):
        op = FC3_Reboot._getParser(self)
        op.add_argument('--eject', action='store_true', default=False)
        return op

    def parse(self, args):
        FC3_Reboot.parse(self, args)
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class F18_Reboot(FC6_Reboot):
    removedKeywords = FC6_Reboot.removedKeywords
    removedAttrs = FC6_Reboot.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC6_Reboot.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()

    def parse(self, args):
        FC6_Reboot.parse(self, args)
        if self.currentCmd == 'halt':
            self.action = KS_WAIT
        return self

    def _getParser(self):
        op = FC6_Reboot._getParser(self)
        op.prog += '|halt'
        pass
        return op

class F23_Reboot(F18_Reboot):
    removedKeywords = F18_Reboot.removedKeywords
    removedAttrs = F18_Reboot.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        F18_Reboot.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.kexec = kwargs.get('kexec', False)

    def _getParser(self):
        op = F18_Reboot._getParser(self)
        op.add_argument('--kexec', action='store_true', default=False)
        return op
