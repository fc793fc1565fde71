from ksspec.version import FC3, F13, F14, F18, F27, F30
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class FC3_Url(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.url = kwargs.get('url', None)
        self.op = self._getParser()

    def __eq__(self, other):
        if not other:
            return False
        return self.url == other.url

    def __ne__(self, other):
        return not self == other

    def _getParser(self):
        op = KSOptionParser(prog='url')
        op.add_argument('--url', required=True)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class F13_Url(FC3_Url):
    removedKeywords = FC3_Url.removedKeywords
    removedAttrs = FC3_Url.removedAttrs

    def __init__(self, *args, **kwargs):
        FC3_Url.__init__(self, *args, **kwargs)
        self.proxy = kwargs.get('proxy', '')

    def __eq__(self, other):
        if not FC3_Url.__eq__(self, other):
            return False
        return self.proxy == other.proxy

    def _getParser(self):
        op = FC3_Url._getParser(self)
        op.add_argument('--proxy')
        return op

class F14_Url(F13_Url):
    removedKeywords = F13_Url.removedKeywords
    removedAttrs = F13_Url.removedAttrs

    def __init__(self, *args, **kwargs):
        F13_Url.__init__(self, *args, **kwargs)
        self.noverifyssl = kwargs.get('noverifyssl', False)

    def __eq__(self, other):
        if not F13_Url.__eq__(self, other):
            return False
        return self.noverifyssl == other.noverifyssl

    def _getParser(self):
        op = F13_Url._getParser(self)
        op.add_argument('--noverifyssl', action='store_true', default=False)
        return op

class RHEL6_Url(F14_Url):
    pass

class F18_Url(F14_Url):
    removedKeywords = F14_Url.removedKeywords
    removedAttrs = F14_Url.removedAttrs

    def __init__(self, *args, **kwargs):
        F14_Url.__init__(self, *args, **kwargs)
        self.mirrorlist = kwargs.get('mirrorlist', None)
        self.exclusive_required_options = [('mirrorlist', '--mirrorlist'), ('url', '--url')]

    def __eq__(self, other):
        if not F14_Url.__eq__(self, other):
            return False
        return self.mirrorlist == other.mirrorlist

    def _getParser(self):
        op = F14_Url._getParser(self)
        op.add_argument('--url')
        op.add_argument('--mirrorlist')
        return op

    def parse(self, args):
        retval = F14_Url.parse(self, args)
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        used_options = [opt for attr, opt in self.exclusive_required_options if getattr(ns, attr, None)]
        if len(used_options) == 0:
            mapping = {'options_list': ', '.join((opt for attr, opt in self.exclusive_required_options))}
            raise KickstartParseError(_('One of -%(options_list)s options must be specified for url command.') % mapping, lineno=self.lineno)
        if len(used_options) > 1:
            mapping = {'options_list': ', '.join((opt for opt in used_options))}
            raise KickstartParseError(_('Only one of %(options_list)s options may be specified for url command.') % mapping, lineno=self.lineno)
        return retval

class F27_Url(F18_Url):
    removedKeywords = F18_Url.removedKeywords
    removedAttrs = F18_Url.removedAttrs

    def __init__(self, *args, **kwargs):
        F18_Url.__init__(self, *args, **kwargs)
        self.metalink = kwargs.get('metalink', None)
        self.exclusive_required_options.append(('metalink', '--metalink'))

    def __eq__(self, other):
        if not F18_Url.__eq__(self, other):
            return False
        return self.metalink == other.metalink

    def _getParser(self):
        op = F18_Url._getParser(self)
        op.add_argument('--url')
        op.add_argument('--metalink')
        return op

class F30_Url(F27_Url):
    removedKeywords = F27_Url.removedKeywords
    removedAttrs = F27_Url.removedAttrs

    def __init__(self, *args, **kwargs):
        F27_Url.__init__(self, *args, **kwargs)
        self.sslcacert = kwargs.get('sslcacert', None)
        self.sslclientcert = kwargs.get('sslclientcert', None)
        self.sslclientkey = kwargs.get('sslclientkey', None)

    def _getParser(self):
        op = F27_Url._getParser(self)
        op.add_argument('--sslcacert')
        op.add_argument('--sslclientcert')
        op.add_argument('--sslclientkey')
        return op

class RHEL8_Url(F30_Url):
    pass
