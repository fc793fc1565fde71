from textwrap import dedent
from ksspec.version import versionToLongString
from ksspec.version import FC6, F8, F11, F13, F14, F15, F21, F27, F30, F33
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartError, KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser, commaSplit, ksboolean
import warnings
from ksspec.i18n import _

class FC6_RepoData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.baseurl = kwargs.get('baseurl', '')
        self.mirrorlist = kwargs.get('mirrorlist', None)
        self.name = kwargs.get('name', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.name == y.name

    def __ne__(self, y):
        return not self == y

class F8_RepoData(FC6_RepoData):
    removedKeywords = FC6_RepoData.removedKeywords
    removedAttrs = FC6_RepoData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC6_RepoData.__init__(self, *args, **kwargs)
        self.cost = kwargs.get('cost', None)
        self.includepkgs = kwargs.get('includepkgs', [])
        self.excludepkgs = kwargs.get('excludepkgs', [])

class F11_RepoData(F8_RepoData):
    removedKeywords = F8_RepoData.removedKeywords
    removedAttrs = F8_RepoData.removedAttrs

    def __init__(self, *args, **kwargs):
        F8_RepoData.__init__(self, *args, **kwargs)
        self.ignoregroups = kwargs.get('ignoregroups', None)

class F13_RepoData(F11_RepoData):
    removedKeywords = F11_RepoData.removedKeywords
    removedAttrs = F11_RepoData.removedAttrs

    def __init__(self, *args, **kwargs):
        F11_RepoData.__init__(self, *args, **kwargs)
        self.proxy = kwargs.get('proxy', '')

class F14_RepoData(F13_RepoData):
    removedKeywords = F13_RepoData.removedKeywords
    removedAttrs = F13_RepoData.removedAttrs

    def __init__(self, *args, **kwargs):
        F13_RepoData.__init__(self, *args, **kwargs)
        self.noverifyssl = kwargs.get('noverifyssl', False)

class RHEL6_RepoData(F14_RepoData):
    pass

class F15_RepoData(F14_RepoData):
    pass

class F21_RepoData(F15_RepoData):
    removedKeywords = F15_RepoData.removedKeywords
    removedAttrs = F15_RepoData.removedAttrs

    def __init__(self, *args, **kwargs):
        F15_RepoData.__init__(self, *args, **kwargs)
        self.install = kwargs.get('install', False)

class F27_RepoData(F21_RepoData):
    removedKeywords = F21_RepoData.removedKeywords
    removedAttrs = F21_RepoData.removedAttrs

    def __init__(self, *args, **kwargs):
        F21_RepoData.__init__(self, *args, **kwargs)
        self.metalink = kwargs.get('metalink', False)

class F30_RepoData(F27_RepoData):
    removedKeywords = F27_RepoData.removedKeywords
    removedAttrs = F27_RepoData.removedAttrs

    def __init__(self, *args, **kwargs):
        F27_RepoData.__init__(self, *args, **kwargs)
        self.sslcacert = kwargs.get('sslcacert', None)
        self.sslclientcert = kwargs.get('sslclientcert', None)
        self.sslclientkey = kwargs.get('sslclientkey', None)

class RHEL7_RepoData(F21_RepoData):
    pass

class RHEL8_RepoData(F30_RepoData):
    pass

class FC6_Repo(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs
    urlRequired = True

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.repoList = kwargs.get('repoList', [])
        self.exclusive_required_options = [('mirrorlist', '--mirrorlist'), ('baseurl', '--baseurl')]

    def _getParser(self):
        op = KSOptionParser(prog='repo')
        op.add_argument('--name', required=True)
        op.add_argument('--baseurl')
        op.add_argument('--mirrorlist')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        used_options = [opt for attr, opt in self.exclusive_required_options if getattr(ns, attr, None)]
        if self.urlRequired and (not used_options):
            mapping = {'options_list': ', '.join((opt for attr, opt in self.exclusive_required_options))}
            raise KickstartParseError(_('One of -%(options_list)s options must be specified for repo command.') % mapping, lineno=self.lineno)
        if len(used_options) > 1:
            mapping = {'options_list': ', '.join((opt for opt in used_options))}
            raise KickstartParseError(_('Only one of %(options_list)s options may be specified for repo command.') % mapping, lineno=self.lineno)
        rd = self.dataClass()
        self.set_to_obj(ns, rd)
        rd.lineno = self.lineno
        if rd in self.dataList():
            warnings.warn(_('A repo with the name %s has already been defined.') % rd.name, KickstartParseWarning)
        return rd

    def dataList(self):
        return self.repoList

    @property
    def dataClass(self):
        return self.handler.RepoData

class F8_Repo(FC6_Repo):
    removedKeywords = FC6_Repo.removedKeywords
    removedAttrs = FC6_Repo.removedAttrs

    def _getParser(self):
        op = FC6_Repo._getParser(self)
        op.add_argument('--cost', type=int)
        op.add_argument('--excludepkgs', type=commaSplit)
        op.add_argument('--includepkgs', type=commaSplit)
        return op

    def methodToRepo(self):
        if not self.handler.method.url:
            raise KickstartError(_('Method must be a url to be added to the repo list.'), lineno=self.handler.method.lineno)
        reponame = 'ks-method-url'
        repourl = self.handler.method.url
        rd = self.handler.RepoData(name=reponame, baseurl=repourl)
        return rd

class F11_Repo(F8_Repo):
    removedKeywords = F8_Repo.removedKeywords
    removedAttrs = F8_Repo.removedAttrs

    def _getParser(self):
        op = F8_Repo._getParser(self)
        op.add_argument('--ignoregroups', type=ksboolean)
        return op

class F13_Repo(F11_Repo):
    removedKeywords = F11_Repo.removedKeywords
    removedAttrs = F11_Repo.removedAttrs

    def _getParser(self):
        op = F11_Repo._getParser(self)
        op.add_argument('--proxy')
        return op

class F14_Repo(F13_Repo):
    removedKeywords = F13_Repo.removedKeywords
    removedAttrs = F13_Repo.removedAttrs

    def _getParser(self):
        op = F13_Repo._getParser(self)
        op.add_argument('--noverifyssl', action='store_true', default=False)
        return op

class RHEL6_Repo(F14_Repo):
    pass

class F15_Repo(F14_Repo):
    removedKeywords = F14_Repo.removedKeywords
    removedAttrs = F14_Repo.removedAttrs
    urlRequired = False

    def _getParser(self):
        op = F14_Repo._getParser(self)
        for action in op._actions:
            for option in ['--baseurl', '--mirrorlist']:
                if option in action.option_strings:
                    pass
        return op

class F21_Repo(F15_Repo):
    removedKeywords = F15_Repo.removedKeywords
    removedAttrs = F15_Repo.removedAttrs

    def _getParser(self):
        op = F15_Repo._getParser(self)
        op.add_argument('--install', action='store_true', default=False)
        return op

class F27_Repo(F21_Repo):
    removedKeywords = F21_Repo.removedKeywords
    removedAttrs = F21_Repo.removedAttrs

    def __init__(self, *args, **kwargs):
        F21_Repo.__init__(self, *args, **kwargs)
        self.exclusive_required_options.append(('metalink', '--metalink'))

    def _getParser(self):
        op = F21_Repo._getParser(self)
        op.add_argument('--metalink')
        for action in op._actions:
            for option in ['--baseurl', '--mirrorlist']:
                if option in action.option_strings:
                    pass
        return op

class F30_Repo(F27_Repo):
    removedKeywords = F27_Repo.removedKeywords
    removedAttrs = F27_Repo.removedAttrs

    def _getParser(self):
        op = F27_Repo._getParser(self)
        op.add_argument('--sslcacert')
        op.add_argument('--sslclientcert')
        op.add_argument('--sslclientkey')
        return op

class F33_Repo(F30_Repo):
    removedKeywords = F30_Repo.removedKeywords
    removedAttrs = F30_Repo.removedAttrs

    def _getParser(self):
        op = F30_Repo._getParser(self)
        op.add_argument('--ignoregroups', type=ksboolean)
        return op

class RHEL7_Repo(F21_Repo):
    pass

class RHEL8_Repo(F30_Repo):
    pass
