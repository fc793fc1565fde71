from ksspec.errors import KickstartParseError
from ksspec.version import F33
from ksspec.base import BaseData, KickstartCommand
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class F33_TimesourceData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.ntp_server = kwargs.get('ntp_server', '')
        self.ntp_pool = kwargs.get('ntp_pool', '')
        self.ntp_disable = kwargs.get('ntp_disable', False)
        self.nts = kwargs.get('nts', False)

    def __eq__(self, y):
        if not y:
            return False
        if self.ntp_server:
            return self.ntp_server == y.ntp_server and self.nts == y.nts
        elif self.ntp_pool:
            return self.ntp_pool == y.ntp_pool and self.nts == y.nts
        else:
            return True

    def __ne__(self, y):
        return not self == y

class F33_Timesource(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.timesource_list = kwargs.get('timesource_list', [])
        self.exclusive_required_options = [('ntp_server', '--ntp-server'), ('ntp_pool', '--ntp-pool'), ('ntp_disable', '--ntp-disable')]

    def _getParser(self):
        op = KSOptionParser(prog='timesource')
        op.add_argument('--ntp-server')
        op.add_argument('--ntp-pool')
        op.add_argument('--ntp-disable', action='store_true', default=False)
        op.add_argument('--nts', dest='nts', action='store_true', default=False)
        return op

    def parse(self, args):
        td = self.dataClass()
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_obj(ns, td)
        td.lineno = self.lineno
        used_options = [opt for attr, opt in self.exclusive_required_options if getattr(ns, attr, None)]
        if len(used_options) == 0:
            mapping = {'options_list': ', '.join((opt for attr, opt in self.exclusive_required_options))}
            raise KickstartParseError(_('One of -%(options_list)s options must be specified for timesource command.') % mapping, lineno=self.lineno)
        if len(used_options) > 1:
            mapping = {'options_list': ', '.join((opt for opt in used_options))}
            raise KickstartParseError(_('Only one of %(options_list)s options may be specified for timesource command.') % mapping, lineno=self.lineno)
        return td

    def dataList(self):
        return self.timesource_list

    @property
    def dataClass(self):
        return self.handler.TimesourceData
