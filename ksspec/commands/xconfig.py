from ksspec.version import FC3, FC6, F9, F10, F14
from ksspec.base import KickstartCommand
from ksspec.options import KSOptionParser

class FC3_XConfig(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.card = kwargs.get('card', '')
        self.defaultdesktop = kwargs.get('defaultdesktop', '')
        self.depth = kwargs.get('depth', 0)
        self.hsync = kwargs.get('hsync', '')
        self.monitor = kwargs.get('monitor', '')
        self.noProbe = kwargs.get('noProbe', False)
        self.resolution = kwargs.get('resolution', '')
        self.server = kwargs.get('server', '')
        self.startX = kwargs.get('startX', False)
        self.videoRam = kwargs.get('videoRam', '')
        self.vsync = kwargs.get('vsync', '')

    def _getParser(self):
        op = KSOptionParser(prog='xconfig')
        op.add_argument('--card')
        op.add_argument('--defaultdesktop')
        op.add_argument('--depth', type=int)
        op.add_argument('--hsync')
        op.add_argument('--monitor')
        op.add_argument('--noprobe', dest='noProbe', action='store_true', default=False)
        op.add_argument('--resolution')
        op.add_argument('--server')
        op.add_argument('--startxonboot', dest='startX', action='store_true', default=False)
        op.add_argument('--videoram', dest='videoRam')
        op.add_argument('--vsync')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class FC6_XConfig(FC3_XConfig):
    removedKeywords = FC3_XConfig.removedKeywords + ['card', 'hsync', 'monitor', 'noProbe', 'server', 'vsync']
    removedAttrs = FC3_XConfig.removedAttrs + ['card', 'hsync', 'monitor', 'noProbe', 'server', 'vsync']

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_XConfig.__init__(self, writePriority, *args, **kwargs)
        self.deleteRemovedAttrs()
        self.driver = kwargs.get('driver', '')

    def _getParser(self):
        op = FC3_XConfig._getParser(self)
        op.add_argument('--card')
        op.add_argument('--driver')
        op.add_argument('--hsync')
        op.add_argument('--monitor')
        op.add_argument('--noprobe')
        op.add_argument('--vsync')
        op.remove_argument('--server')
        return op

class F9_XConfig(FC6_XConfig):
    removedKeywords = FC6_XConfig.removedKeywords
    removedAttrs = FC6_XConfig.removedAttrs

    def _getParser(self):
        op = FC6_XConfig._getParser(self)
        op.remove_argument('--card')
        op.remove_argument('--hsync')
        op.remove_argument('--monitor')
        op.remove_argument('--noprobe')
        op.remove_argument('--vsync')
        return op

class F10_XConfig(F9_XConfig):
    removedKeywords = F9_XConfig.removedKeywords + ['driver', 'resolution', 'videoRam']
    removedAttrs = F9_XConfig.removedAttrs + ['driver', 'resolution', 'videoRam']

    def __init__(self, writePriority=0, *args, **kwargs):
        F9_XConfig.__init__(self, writePriority, *args, **kwargs)
        self.deleteRemovedAttrs()

    def _getParser(self):
        op = F9_XConfig._getParser(self)
        op.add_argument('--driver')
        op.add_argument('--depth')
        op.add_argument('--resolution')
        op.add_argument('--videoram')
        return op

class F14_XConfig(F10_XConfig):
    removedKeywords = F10_XConfig.removedKeywords
    removedAttrs = F10_XConfig.removedAttrs

    def _getParser(self):
        op = F10_XConfig._getParser(self)
        op.remove_argument('--driver')
        op.remove_argument('--depth')
        op.remove_argument('--resolution')
        op.remove_argument('--videoram')
        return op
