from ksspec.version import FC3, F9, F10, F14, F20, F28
from ksspec.base import KickstartCommand
from ksspec.options import ExtendAction, ExtendConstAction, KSOptionParser, commaSplit

class FC3_Firewall(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.enabled = kwargs.get('enabled', None)
        self.ports = kwargs.get('ports', [])
        self.trusts = kwargs.get('trusts', [])

    def _getParser(self):

        def firewall_port_cb(value):
            retval = []
            for p in value.split(','):
                p = p.strip()
                if p.find(':') == -1:
                    p = '%s:tcp' % p
                retval.append(p)
            return retval
        op = KSOptionParser(prog='firewall')
        op.add_argument('--disable', '--disabled', dest='enabled', action='store_false')
        op.add_argument('--enable', '--enabled', dest='enabled', action='store_true', default=True)
        op.add_argument('--ftp', dest='ports', action='append_const', const='21:tcp')
        op.add_argument('--http', dest='ports', action=ExtendConstAction, const=['80:tcp', '443:tcp'], nargs=0)
        op.add_argument('--smtp', dest='ports', action='append_const', const='25:tcp')
        op.add_argument('--ssh', dest='ports', action='append_const', const='22:tcp')
        op.add_argument('--telnet', dest='ports', action='append_const', const='23:tcp')
        op.add_argument('--high')
        op.add_argument('--medium')
        op.add_argument('--port', dest='ports', action=ExtendAction, type=firewall_port_cb)
        op.add_argument('--trust', dest='trusts', action='append')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class F9_Firewall(FC3_Firewall):
    removedKeywords = FC3_Firewall.removedKeywords
    removedAttrs = FC3_Firewall.removedAttrs

    def _getParser(self):
        op = FC3_Firewall._getParser(self)
        op.remove_argument('--high')
        op.remove_argument('--medium')
        return op

class F10_Firewall(F9_Firewall):
    removedKeywords = F9_Firewall.removedKeywords
    removedAttrs = F9_Firewall.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        F9_Firewall.__init__(self, writePriority, *args, **kwargs)
        self.services = kwargs.get('services', [])

    def _getParser(self):
        op = F9_Firewall._getParser(self)
        op.add_argument('--service', dest='services', action=ExtendAction, type=commaSplit)
        op.add_argument('--ftp', dest='services', action='append_const', const='ftp')
        op.add_argument('--http', dest='services', action='append_const', const='http')
        op.add_argument('--smtp', dest='services', action='append_const', const='smtp')
        op.add_argument('--ssh', dest='services', action='append_const', const='ssh')
        op.add_argument('--telnet')
        return op

class F14_Firewall(F10_Firewall):
    removedKeywords = F10_Firewall.removedKeywords + ['telnet']
    removedAttrs = F10_Firewall.removedAttrs + ['telnet']

    def _getParser(self):
        op = F10_Firewall._getParser(self)
        op.remove_argument('--telnet')
        return op

class F20_Firewall(F14_Firewall):

    def __init__(self, writePriority=0, *args, **kwargs):
        F14_Firewall.__init__(self, writePriority, *args, **kwargs)
        self.remove_services = kwargs.get('remove_services', [])

    def _getParser(self):
        op = F14_Firewall._getParser(self)
        op.add_argument('--remove-service', dest='remove_services', action=ExtendAction, type=commaSplit)
        return op

class F28_Firewall(F20_Firewall):

    def __init__(self, writePriority=0, *args, **kwargs):
        F20_Firewall.__init__(self, writePriority, *args, **kwargs)
        self.use_system_defaults = kwargs.get('use_system_defaults', None)

    def _getParser(self):
        op = F20_Firewall._getParser(self)
        op.add_argument('--use-system-defaults', dest='use_system_defaults', action='store_true', default=False)
        return op
