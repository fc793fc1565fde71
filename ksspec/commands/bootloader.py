from ksspec.version import RHEL5, RHEL6, versionToLongString
from ksspec.version import FC3, FC4, F8, F12, F14, F15, F17, F18, F19, F21, F29, F34
from ksspec.base import KickstartCommand, RemovedCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser, commaSplit
from ksspec.i18n import _

class FC3_Bootloader(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.driveorder = kwargs.get('driveorder', [])
        self.appendLine = kwargs.get('appendLine', '')
        self.forceLBA = kwargs.get('forceLBA', False)
        self.linear = kwargs.get('linear', True)
        self.location = kwargs.get('location', 'none')
        self.md5pass = kwargs.get('md5pass', '')
        self.password = kwargs.get('password', '')
        self.upgrade = kwargs.get('upgrade', False)
        self.useLilo = kwargs.get('useLilo', False)
        self.deleteRemovedAttrs()

    def _getParser(self):
        op = KSOptionParser(prog='bootloader')
        op.add_argument('--append', dest='appendLine')
        op.add_argument('--linear', action='store_true', default=True)
        op.add_argument('--nolinear', dest='linear', action='store_false')
        op.add_argument('--location', default='mbr', choices=['mbr', 'partition', 'none', 'boot'])
        op.add_argument('--lba32', dest='forceLBA', action='store_true', default=False)
        op.add_argument('--password', default='')
        op.add_argument('--md5pass', default='')
        op.add_argument('--upgrade', action='store_true', default=False)
        op.add_argument('--useLilo', action='store_true', default=False)
        op.add_argument('--driveorder', type=commaSplit)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if self.currentCmd == 'lilo':
            self.useLilo = True
        return self

class FC3_Lilo(FC3_Bootloader):

    def _getParser(self):
        op = super(FC3_Lilo, self)._getParser()
        op.prog = 'lilo'
        return op

class FC4_Lilo(RemovedCommand, FC3_Lilo):

    def _getParser(self):
        op = FC3_Lilo._getParser(self)
        pass
        return op

class FC4_Bootloader(FC3_Bootloader):
    removedKeywords = FC3_Bootloader.removedKeywords + ['linear', 'useLilo']
    removedAttrs = FC3_Bootloader.removedAttrs + ['linear', 'useLilo']

    def __init__(self, writePriority=10, *args, **kwargs):
        FC3_Bootloader.__init__(self, writePriority, *args, **kwargs)

    def _getParser(self):
        op = FC3_Bootloader._getParser(self)
        op.remove_argument('--linear')
        op.remove_argument('--nolinear')
        op.remove_argument('--useLilo')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class F8_Bootloader(FC4_Bootloader):
    removedKeywords = FC4_Bootloader.removedKeywords
    removedAttrs = FC4_Bootloader.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        FC4_Bootloader.__init__(self, writePriority, *args, **kwargs)
        self.timeout = kwargs.get('timeout', None)
        self.default = kwargs.get('default', '')

    def _getParser(self):
        op = FC4_Bootloader._getParser(self)
        op.add_argument('--timeout', type=int)
        op.add_argument('--default')
        return op

class F12_Bootloader(F8_Bootloader):
    removedKeywords = F8_Bootloader.removedKeywords
    removedAttrs = F8_Bootloader.removedAttrs

    def _getParser(self):
        op = F8_Bootloader._getParser(self)
        op.add_argument('--lba32', dest='forceLBA', action='store_true')
        return op

class F14_Bootloader(F12_Bootloader):
    removedKeywords = F12_Bootloader.removedKeywords + ['forceLBA']
    removedAttrs = F12_Bootloader.removedKeywords + ['forceLBA']

    def _getParser(self):
        op = F12_Bootloader._getParser(self)
        op.remove_argument('--lba32')
        return op

class F15_Bootloader(F14_Bootloader):
    removedKeywords = F14_Bootloader.removedKeywords
    removedAttrs = F14_Bootloader.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        F14_Bootloader.__init__(self, writePriority, *args, **kwargs)
        self.isCrypted = kwargs.get('isCrypted', False)

    def _getParser(self):
        op = F14_Bootloader._getParser(self)
        op.add_argument('--iscrypted', dest='isCrypted', action='store_true', default=False)
        op.add_argument('--md5pass', dest='_md5pass')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        if getattr(ns, '_md5pass', None):
            ns.password = ns._md5pass
            ns.isCrypted = True
            del ns._md5pass
        self.set_to_self(ns)
        return self

class F17_Bootloader(F15_Bootloader):
    removedKeywords = F15_Bootloader.removedKeywords
    removedAttrs = F15_Bootloader.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        F15_Bootloader.__init__(self, writePriority, *args, **kwargs)
        self.bootDrive = kwargs.get('bootDrive', '')

    def _getParser(self):
        op = F15_Bootloader._getParser(self)
        op.add_argument('--boot-drive', dest='bootDrive', default='')
        return op

    def parse(self, args):
        retval = F15_Bootloader.parse(self, args)
        if ',' in retval.bootDrive:
            raise KickstartParseError(_('--boot-drive accepts only one argument'), lineno=self.lineno)
        return retval

class F18_Bootloader(F17_Bootloader):
    removedKeywords = F17_Bootloader.removedKeywords
    removedAttrs = F17_Bootloader.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        F17_Bootloader.__init__(self, writePriority, *args, **kwargs)
        self.leavebootorder = kwargs.get('leavebootorder', False)

    def _getParser(self):
        op = F17_Bootloader._getParser(self)
        op.add_argument('--leavebootorder', action='store_true', default=False)
        return op

class RHEL5_Bootloader(FC4_Bootloader):
    removedKeywords = FC4_Bootloader.removedKeywords
    removedAttrs = FC4_Bootloader.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        FC4_Bootloader.__init__(self, writePriority, *args, **kwargs)
        self.hvArgs = kwargs.get('hvArgs', '')

    def _getParser(self):
        op = FC4_Bootloader._getParser(self)
        op.add_argument('--hvargs', dest='hvArgs')
        return op

class RHEL6_Bootloader(F12_Bootloader):
    removedKeywords = F12_Bootloader.removedKeywords
    removedAttrs = F12_Bootloader.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        F12_Bootloader.__init__(self, writePriority, *args, **kwargs)
        self.isCrypted = kwargs.get('isCrypted', False)

    def _getParser(self):
        op = F12_Bootloader._getParser(self)
        op.add_argument('--iscrypted', dest='isCrypted', action='store_true', default=False)
        op.add_argument('--md5pass', dest='_md5pass')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        if getattr(ns, '_md5pass', None):
            ns.password = ns._md5pass
            ns.isCrypted = True
            del ns._md5pass
        self.set_to_self(ns)
        return self

class F19_Bootloader(F18_Bootloader):
    removedKeywords = F18_Bootloader.removedKeywords
    removedAttrs = F18_Bootloader.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        F18_Bootloader.__init__(self, writePriority, *args, **kwargs)
        self.extlinux = kwargs.get('extlinux', False)

    def _getParser(self):
        op = F18_Bootloader._getParser(self)
        op.add_argument('--extlinux', action='store_true', default=False)
        return op

class F21_Bootloader(F19_Bootloader):
    removedKeywords = F19_Bootloader.removedKeywords
    removedAttrs = F19_Bootloader.removedAttrs

    def __init__(self, writePriority=10, *args, **kwargs):
        F19_Bootloader.__init__(self, writePriority, *args, **kwargs)
        self.disabled = kwargs.get('disabled', False)
        self.nombr = kwargs.get('nombr', False)

    def _getParser(self):
        op = F19_Bootloader._getParser(self)
        op.add_argument('--disabled', action='store_true', default=False)
        op.add_argument('--nombr', action='store_true', default=False)
        return op

class RHEL7_Bootloader(F21_Bootloader):
    pass

class F29_Bootloader(F21_Bootloader):
    removedKeywords = F21_Bootloader.removedKeywords
    removedAttrs = F21_Bootloader.removedAttrs

    def _getParser(self):
        op = F21_Bootloader._getParser(self)
        op.add_argument('--upgrade', action='store_true', default=False)
        return op

class RHEL8_Bootloader(F29_Bootloader):
    pass

class F34_Bootloader(F29_Bootloader):
    removedKeywords = F29_Bootloader.removedKeywords
    removedAttrs = F29_Bootloader.removedAttrs

    def _getParser(self):
        op = F29_Bootloader._getParser(self)
        op.remove_argument('--upgrade')
        return op
