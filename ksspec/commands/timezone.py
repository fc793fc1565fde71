import warnings
from ksspec.version import FC3, FC6, F18
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError, KickstartDeprecationWarning
from ksspec.options import KSOptionParser, commaSplit
from ksspec.i18n import _

class FC3_Timezone(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.isUtc = kwargs.get('isUtc', False)
        self.timezone = kwargs.get('timezone', '')

    def _getParser(self):
        op = KSOptionParser(prog='timezone')
        op.add_argument('--utc', dest='isUtc', action='store_true', default=False)
        op.add_argument('timezone', nargs=1)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        assert len(ns.timezone) == 1
        if extra:
            mapping = {'command': 'timezone', 'options': extra}
            raise KickstartParseError(_('Unexpected arguments to %(command)s command: %(options)s') % mapping, lineno=self.lineno)
        self.timezone = ns.timezone[0]
        return self

class FC6_Timezone(FC3_Timezone):
    removedKeywords = FC3_Timezone.removedKeywords
    removedAttrs = FC3_Timezone.removedAttrs

    def _getParser(self):
        op = FC3_Timezone._getParser(self)
        op.add_argument('--utc', '--isUtc', dest='isUtc', action='store_true', default=False)
        return op

class F18_Timezone(FC6_Timezone):

    def __init__(self, writePriority=0, *args, **kwargs):
        FC6_Timezone.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.nontp = kwargs.get('nontp', False)
        self.ntpservers = kwargs.get('ntpservers', set())

    def _getParser(self):
        op = FC6_Timezone._getParser(self)
        op.add_argument('--nontp', action='store_true', default=False)
        op.add_argument('--ntpservers', dest='ntpservers', type=commaSplit)
        return op

    def parse(self, args):
        FC6_Timezone.parse(self, args)
        self.ntpservers = list(dict.fromkeys(self.ntpservers))
        if self.ntpservers and self.nontp:
            msg = _('Options --nontp and --ntpservers are mutually exclusive')
            raise KickstartParseError(msg, lineno=self.lineno)
        return self

class F23_Timezone(F18_Timezone):

    def __init__(self, *args, **kwargs):
        F18_Timezone.__init__(self, *args, **kwargs)
        self.ntpservers = kwargs.get('ntpservers', list())

    def parse(self, args):
        FC6_Timezone.parse(self, args)
        if self.ntpservers and self.nontp:
            msg = _('Options --nontp and --ntpservers are mutually exclusive')
            raise KickstartParseError(msg, lineno=self.lineno)
        return self

class RHEL7_Timezone(F18_Timezone):

    def __init__(self, writePriority=0, *args, **kwargs):
        F18_Timezone.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()

    def _getParser(self):
        op = KSOptionParser(prog='timezone')
        op.add_argument('timezone', nargs='*')
        op.add_argument('--utc', '--isUtc', dest='isUtc', action='store_true', default=False)
        op.add_argument('--nontp', action='store_true', default=False)
        op.add_argument('--ntpservers', dest='ntpservers', type=commaSplit)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if not args:
            error_message = _('At least one option and/or an argument are expected for the %s command') % 'timezone'
            raise KickstartParseError(error_message, lineno=self.lineno)
        if len(ns.timezone) == 1:
            self.timezone = ns.timezone[0]
        elif len(ns.timezone) > 1:
            error_message = _('One or zero arguments are expected for the %s command') % 'timezone'
            raise KickstartParseError(error_message, lineno=self.lineno)
        if self.ntpservers and self.nontp:
            msg = _('Options --nontp and --ntpservers are mutually exclusive')
            raise KickstartParseError(msg, lineno=self.lineno)
        return self

class F25_Timezone(F23_Timezone):

    def __init__(self, writePriority=0, *args, **kwargs):
        F23_Timezone.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()

    def _getParser(self):
        op = KSOptionParser(prog='timezone')
        op.add_argument('timezone', nargs='*')
        op.add_argument('--utc', '--isUtc', dest='isUtc', action='store_true', default=False)
        op.add_argument('--nontp', action='store_true', default=False)
        op.add_argument('--ntpservers', dest='ntpservers', type=commaSplit)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        if not args:
            error_message = _('At least one option and/or an argument are expected for the %s command') % 'timezone'
            raise KickstartParseError(error_message, lineno=self.lineno)
        if len(ns.timezone) == 1:
            self.timezone = ns.timezone[0]
        elif len(ns.timezone) > 1:
            error_message = _('One or zero arguments are expected for the %s command') % 'timezone'
            raise KickstartParseError(error_message, lineno=self.lineno)
        if self.ntpservers and self.nontp:
            msg = _('Options --nontp and --ntpservers are mutually exclusive')
            raise KickstartParseError(msg, lineno=self.lineno)
        return self

class F32_Timezone(F25_Timezone):

    def __init__(self, writePriority=0, *args, **kwargs):
        F25_Timezone.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()

    def parse(self, args):
        F25_Timezone.parse(self, args)
        if '--isUtc' in args:
            warnings.warn(_('The option --isUtc will be deprecated in future releases. Please modify your kickstart file to replace this option with its preferred alias --utc.'), KickstartDeprecationWarning)
        return self

class F33_Timezone(F32_Timezone):

    def __init__(self, writePriority=0, *args, **kwargs):
        F32_Timezone.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()

    def parse(self, args):
        F32_Timezone.parse(self, args)
        if self.ntpservers:
            warnings.warn(_('The option --ntpservers will be deprecated in future releases. Please modify your kickstart file to replace this option with timesource --ntp-server <server hostname> command invocation, one per NTP server.'), KickstartDeprecationWarning)
        if self.nontp:
            warnings.warn(_('The option --nontp will be deprecated in future releases. Please modify your kickstart file to replace this option with timesource --ntp-disable command invocation.'), KickstartDeprecationWarning)
        return self
