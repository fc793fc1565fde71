from ksspec.base import KickstartCommand
from ksspec.version import versionToLongString, RHEL6, RHEL7, RHEL8
from ksspec.version import FC3, F9, F12, F16, F17, F18, F20, F21, F26, F29
from ksspec.constants import AUTOPART_TYPE_BTRFS, AUTOPART_TYPE_LVM, AUTOPART_TYPE_LVM_THINP, AUTOPART_TYPE_PLAIN
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_AutoPart(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.autopart = kwargs.get('autopart', False)

    def parse(self, args):
        if len(args) > 0:
            raise KickstartParseError(_('Kickstart command %s does not take any arguments') % 'autopart', lineno=self.lineno)
        self.autopart = True
        return self

    def _getParser(self):
        return KSOptionParser(prog='autopart')

class F9_AutoPart(FC3_AutoPart):
    removedKeywords = FC3_AutoPart.removedKeywords
    removedAttrs = FC3_AutoPart.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        FC3_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.encrypted = kwargs.get('encrypted', False)
        self.passphrase = kwargs.get('passphrase', '')
        self.op = self._getParser()

    def _getParser(self):
        op = FC3_AutoPart._getParser(self)
        op.add_argument('--encrypted', action='store_true', default=False)
        op.add_argument('--passphrase')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        self.autopart = True
        return self

class F12_AutoPart(F9_AutoPart):
    removedKeywords = F9_AutoPart.removedKeywords
    removedAttrs = F9_AutoPart.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        F9_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.escrowcert = kwargs.get('escrowcert', '')
        self.backuppassphrase = kwargs.get('backuppassphrase', False)

    def _getParser(self):
        op = F9_AutoPart._getParser(self)
        op.add_argument('--escrowcert')
        op.add_argument('--backuppassphrase', action='store_true', default=False)
        return op

class RHEL6_AutoPart(F12_AutoPart):
    removedKeywords = F12_AutoPart.removedKeywords
    removedAttrs = F12_AutoPart.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        F12_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.cipher = kwargs.get('cipher', '')

    def _getParser(self):
        op = F12_AutoPart._getParser(self)
        op.add_argument('--cipher')
        return op

    def parse(self, args):
        retval = F12_AutoPart.parse(self, args)
        conflicting_command = ''
        if self.handler.partition.seen:
            conflicting_command = 'part/partition'
        elif self.handler.raid.seen:
            conflicting_command = 'raid'
        elif self.handler.volgroup.seen:
            conflicting_command = 'volgroup'
        elif self.handler.logvol.seen:
            conflicting_command = 'logvol'
        if conflicting_command:
            errorMsg = _("The %s and autopart commands can't be used at the same time") % conflicting_command
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F16_AutoPart(F12_AutoPart):
    removedKeywords = F12_AutoPart.removedKeywords
    removedAttrs = F12_AutoPart.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        F12_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.lvm = kwargs.get('lvm', True)

    def _getParser(self):
        op = F12_AutoPart._getParser(self)
        op.add_argument('--nolvm', action='store_false', dest='lvm', default=True)
        return op

class F17_AutoPart(F16_AutoPart):

    def __init__(self, writePriority=100, *args, **kwargs):
        self.typeMap = {'lvm': AUTOPART_TYPE_LVM, 'btrfs': AUTOPART_TYPE_BTRFS, 'plain': AUTOPART_TYPE_PLAIN, 'partition': AUTOPART_TYPE_PLAIN}
        F16_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.type = kwargs.get('type', None)

    def _typeAsStr(self):
        names = {AUTOPART_TYPE_LVM: 'lvm', AUTOPART_TYPE_BTRFS: 'btrfs', AUTOPART_TYPE_PLAIN: 'plain', AUTOPART_TYPE_LVM_THINP: 'thinp'}
        return names.get(self.type)

    def _type_cb(self, value):
        if value.lower() in self.typeMap:
            return self.typeMap[value.lower()]
        else:
            raise KickstartParseError(_('Invalid autopart type: %s') % value, lineno=self.lineno)

    def _getParser(self):
        op = F16_AutoPart._getParser(self)
        op.add_argument('--nolvm', action='store_const', const=AUTOPART_TYPE_PLAIN, dest='type')
        op.add_argument('--type', type=self._type_cb)
        return op

    def parse(self, args):
        retval = F16_AutoPart.parse(self, args)
        self.lvm = True
        return retval

class F18_AutoPart(F17_AutoPart):
    removedKeywords = F17_AutoPart.removedKeywords
    removedAttrs = F17_AutoPart.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        F17_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.cipher = kwargs.get('cipher', '')

    def _getParser(self):
        op = F17_AutoPart._getParser(self)
        op.add_argument('--cipher')
        return op

class F20_AutoPart(F18_AutoPart):

    def __init__(self, writePriority=100, *args, **kwargs):
        F18_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.typeMap['thinp'] = AUTOPART_TYPE_LVM_THINP

    def parse(self, args):
        retval = F18_AutoPart.parse(self, args)
        conflicting_command = ''
        if self.handler.partition.seen:
            conflicting_command = 'part/partition'
        elif self.handler.raid.seen:
            conflicting_command = 'raid'
        elif self.handler.volgroup.seen:
            conflicting_command = 'volgroup'
        elif self.handler.logvol.seen:
            conflicting_command = 'logvol'
        elif hasattr(self.handler, 'mount') and self.handler.mount.seen:
            conflicting_command = 'mount'
        if conflicting_command:
            errorMsg = _("The %s and autopart commands can't be used at the same time") % conflicting_command
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

    def _getParser(self):
        op = F18_AutoPart._getParser(self)
        for action in op._actions:
            if '--type' in action.option_strings:
                pass
        return op

class F21_AutoPart(F20_AutoPart):
    removedKeywords = F20_AutoPart.removedKeywords
    removedAttrs = F20_AutoPart.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        F20_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.fstype = kwargs.get('fstype', '')

    def _getParser(self):
        op = F20_AutoPart._getParser(self)
        op.add_argument('--fstype')
        return op

    def parse(self, args):
        retval = F20_AutoPart.parse(self, args)
        if self.fstype == 'btrfs':
            raise KickstartParseError(_('autopart --fstype=btrfs is not valid fstype, use --type=btrfs instead'), lineno=self.lineno)
        if self._typeAsStr() == 'btrfs' and self.fstype:
            raise KickstartParseError(_('autopart --fstype cannot be used with --type=btrfs'), lineno=self.lineno)
        return retval

class F23_AutoPart(F21_AutoPart):

    def parse(self, args):
        retval = F21_AutoPart.parse(self, args)
        conflicting_command = ''
        if hasattr(self.handler, 'reqpart') and self.handler.reqpart.seen:
            conflicting_command = 'reqpart'
        if conflicting_command:
            errorMsg = _("The %s and autopart commands can't be used at the same time") % conflicting_command
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class RHEL7_AutoPart(F21_AutoPart):

    def __init__(self, writePriority=100, *args, **kwargs):
        F21_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.nohome = kwargs.get('nohome', False)

    def _getParser(self):
        op = F21_AutoPart._getParser(self)
        op.add_argument('--nohome', action='store_true', default=False)
        return op

    def parse(self, args):
        retval = F21_AutoPart.parse(self, args)
        conflicting_command = ''
        if hasattr(self.handler, 'reqpart') and self.handler.reqpart.seen:
            conflicting_command = 'reqpart'
        if conflicting_command:
            errorMsg = _("The %s and autopart commands can't be used at the same time") % conflicting_command
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        return retval

class F26_AutoPart(F23_AutoPart):
    removedKeywords = F23_AutoPart.removedKeywords
    removedAttrs = F23_AutoPart.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        F23_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.nohome = kwargs.get('nohome', False)
        self.noboot = kwargs.get('noboot', False)
        self.noswap = kwargs.get('noswap', False)

    def _getParser(self):
        op = F23_AutoPart._getParser(self)
        op.add_argument('--nohome', action='store_true', default=False)
        op.add_argument('--noboot', action='store_true', default=False)
        op.add_argument('--noswap', action='store_true', default=False)
        return op

class F29_AutoPart(F26_AutoPart):
    removedKeywords = F26_AutoPart.removedKeywords
    removedAttrs = F26_AutoPart.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        F26_AutoPart.__init__(self, *args, writePriority=writePriority, **kwargs)
        self.luks_version = kwargs.get('luks_version', '')
        self.pbkdf = kwargs.get('pbkdf', '')
        self.pbkdf_memory = kwargs.get('pbkdf_memory', 0)
        self.pbkdf_time = kwargs.get('pbkdf_time', 0)
        self.pbkdf_iterations = kwargs.get('pbkdf_iterations', 0)

    def _getParser(self):
        op = F26_AutoPart._getParser(self)
        op.add_argument('--luks-version', dest='luks_version', default='')
        op.add_argument('--pbkdf', default='')
        op.add_argument('--pbkdf-memory', dest='pbkdf_memory', type=int, default=0)
        op.add_argument('--pbkdf-time', dest='pbkdf_time', type=int, default=0)
        op.add_argument('--pbkdf-iterations', dest='pbkdf_iterations', type=int, default=0)
        return op

    def parse(self, args):
        retval = F26_AutoPart.parse(self, args)
        if self.pbkdf_time and self.pbkdf_iterations:
            msg = _('Only one of --pbkdf-time and --pbkdf-iterations can be specified.')
            raise KickstartParseError(msg, lineno=self.lineno)
        return retval

class RHEL8_AutoPart(F29_AutoPart):
    removedKeywords = F29_AutoPart.removedKeywords
    removedAttrs = F29_AutoPart.removedAttrs

    def parse(self, args):
        retval = F29_AutoPart.parse(self, args)
        if self._typeAsStr() == 'btrfs':
            raise KickstartParseError(_('autopart --type=btrfs is not supported'), lineno=self.lineno)
        return retval

    def _getParser(self):
        op = F29_AutoPart._getParser(self)
        for action in op._actions:
            if '--type' in action.option_strings:
                pass
            if '--fstype' in action.option_strings:
                pass
        return op
