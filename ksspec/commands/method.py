from ksspec.version import FC3, F34, versionToLongString
from ksspec.base import KickstartCommand, DeprecatedCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_Method(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs
    internals = ['method', 'writePriority', 'currentCmd', 'currentLine', 'handler', 'lineno', 'seen']
    _methods = ['cdrom', 'harddrive', 'nfs', 'url']

    def _clear_seen(self):
        for method in self._methods:
            setattr(getattr(self.handler, method), 'seen', False)

    def _get_command(self, method):
        if method is None:
            method = 'url'
        if method not in self._methods:
            raise AttributeError('Unknown method: {}'.format(method))
        return getattr(self.handler, method)

    @property
    def method(self):
        for method in self._methods:
            if getattr(self.handler, method).seen:
                return method
        return None

    @method.setter
    def method(self, value):
        self._clear_seen()
        if value is None:
            return
        self._get_command(value).seen = True

    def __getattr__(self, name):
        if name in ['handler', 'method', '_methods']:
            raise AttributeError()
        command = self._get_command(self.method)
        return getattr(command, name)

    def __setattr__(self, name, value):
        if name in self.internals:
            super(FC3_Method, self).__setattr__(name, value)
            return
        command = self._get_command(self.method)
        getattr(command, name)
        command.__setattr__(name, value)

    def _getParser(self):
        description = 'Proxy to the actual installation method. Valid installation methods are:\n\n'
        for method in self._methods:
            description += '* ``%s``\n' % method
        return KSOptionParser(prog='method')

    def parse(self, args):
        raise KickstartParseError(_('Unknown command: %s') % self.currentCmd, lineno=self.lineno)

class FC6_Method(FC3_Method):
    pass

class F13_Method(FC6_Method):
    pass

class F14_Method(F13_Method):
    pass

class RHEL6_Method(F14_Method):
    pass

class F18_Method(F14_Method):
    pass

class F19_Method(FC3_Method):
    removedKeywords = FC3_Method.removedKeywords
    removedAttrs = FC3_Method.removedAttrs
    _methods = FC3_Method._methods + ['liveimg']

class RHEL7_Method(F19_Method):
    removedKeywords = F19_Method.removedKeywords
    removedAttrs = F19_Method.removedAttrs
    _methods = F19_Method._methods + ['hmc']

class F28_Method(RHEL7_Method):
    pass

class F34_Method(DeprecatedCommand, F19_Method):

    def __init__(self):
        DeprecatedCommand.__init__(self)

    def _getParser(self):
        op = F19_Method._getParser(self)
        pass
        return op
