from textwrap import dedent
from ksspec.base import BaseData, KickstartCommand
from ksspec.version import versionToLongString, RHEL4, RHEL5, RHEL6, RHEL7
from ksspec.version import FC3, FC4, FC6, F8, F9, F16, F19, F20, F21, F22, F25, F27
from ksspec.constants import BOOTPROTO_BOOTP, BOOTPROTO_DHCP, BOOTPROTO_IBFT, BOOTPROTO_QUERY, BOOTPROTO_STATIC, BIND_TO_MAC
from ksspec.options import KSOptionParser, ksboolean
from ksspec.errors import KickstartParseError, KickstartParseWarning
import warnings
from ksspec.i18n import _
MIN_VLAN_ID = 0
MAX_VLAN_ID = 4095

class FC3_NetworkData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.bootProto = kwargs.get('bootProto', BOOTPROTO_DHCP)
        self.dhcpclass = kwargs.get('dhcpclass', '')
        self.device = kwargs.get('device', '')
        self.essid = kwargs.get('essid', '')
        self.ethtool = kwargs.get('ethtool', '')
        self.gateway = kwargs.get('gateway', '')
        self.hostname = kwargs.get('hostname', '')
        self.ip = kwargs.get('ip', '')
        self.mtu = kwargs.get('mtu', '')
        self.nameserver = kwargs.get('nameserver', '')
        self.netmask = kwargs.get('netmask', '')
        self.nodns = kwargs.get('nodns', False)
        self.onboot = kwargs.get('onboot', True)
        self.wepkey = kwargs.get('wepkey', '')

    def __eq__(self, y):
        if not y:
            return False
        return self.device == y.device

    def __ne__(self, y):
        return not self == y

class FC4_NetworkData(FC3_NetworkData):
    removedKeywords = FC3_NetworkData.removedKeywords
    removedAttrs = FC3_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC3_NetworkData.__init__(self, *args, **kwargs)
        self.notksdevice = kwargs.get('notksdevice', False)

class FC6_NetworkData(FC4_NetworkData):
    removedKeywords = FC4_NetworkData.removedKeywords
    removedAttrs = FC4_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC4_NetworkData.__init__(self, *args, **kwargs)
        self.noipv4 = kwargs.get('noipv4', False)
        self.noipv6 = kwargs.get('noipv6', False)

class F8_NetworkData(FC6_NetworkData):
    removedKeywords = FC6_NetworkData.removedKeywords
    removedAttrs = FC6_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC6_NetworkData.__init__(self, *args, **kwargs)
        self.ipv6 = kwargs.get('ipv6', '')

class F16_NetworkData(F8_NetworkData):
    removedKeywords = F8_NetworkData.removedKeywords
    removedAttrs = F8_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        F8_NetworkData.__init__(self, *args, **kwargs)
        self.activate = kwargs.get('activate', None)
        self.nodefroute = kwargs.get('nodefroute', False)
        self.wpakey = kwargs.get('wpakey', '')

class F19_NetworkData(F16_NetworkData):
    removedKeywords = F16_NetworkData.removedKeywords
    removedAttrs = F16_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        F16_NetworkData.__init__(self, *args, **kwargs)
        self.bondslaves = kwargs.get('bondslaves', '')
        self.bondopts = kwargs.get('bondopts', '')
        self.vlanid = kwargs.get('vlanid', '')
        self.ipv6gateway = kwargs.get('ipv6gateway', '')

class F20_NetworkData(F19_NetworkData):
    removedKeywords = F19_NetworkData.removedKeywords
    removedAttrs = F19_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        F19_NetworkData.__init__(self, *args, **kwargs)
        self.teamslaves = kwargs.get('teamslaves', [])
        self.teamconfig = kwargs.get('teamconfig', '')

class F21_NetworkData(F20_NetworkData):
    removedKeywords = F20_NetworkData.removedKeywords
    removedAttrs = F20_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        F20_NetworkData.__init__(self, *args, **kwargs)
        self.interfacename = kwargs.get('interfacename', '')

class F22_NetworkData(F21_NetworkData):
    removedKeywords = F21_NetworkData.removedKeywords
    removedAttrs = F21_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        F21_NetworkData.__init__(self, *args, **kwargs)
        self.bridgeslaves = kwargs.get('bridgeslaves', '')
        self.bridgeopts = kwargs.get('bridgeopts', '')

class F25_NetworkData(F22_NetworkData):
    removedKeywords = F22_NetworkData.removedKeywords
    removedAttrs = F22_NetworkData.removedAttrs

class F27_NetworkData(F25_NetworkData):
    removedKeywords = F25_NetworkData.removedKeywords
    removedAttrs = F25_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        F25_NetworkData.__init__(self, *args, **kwargs)
        self.bindto = kwargs.get('bindto', None)

class RHEL4_NetworkData(FC3_NetworkData):
    removedKeywords = FC3_NetworkData.removedKeywords
    removedAttrs = FC3_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        FC3_NetworkData.__init__(self, *args, **kwargs)
        self.notksdevice = kwargs.get('notksdevice', False)

class RHEL6_NetworkData(F8_NetworkData):
    removedKeywords = F8_NetworkData.removedKeywords
    removedAttrs = F8_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        F8_NetworkData.__init__(self, *args, **kwargs)
        self.activate = kwargs.get('activate', None)
        self.nodefroute = kwargs.get('nodefroute', False)
        self.vlanid = kwargs.get('vlanid', '')
        self.bondslaves = kwargs.get('bondslaves', '')
        self.bondopts = kwargs.get('bondopts', '')

class RHEL7_NetworkData(F21_NetworkData):
    removedKeywords = F21_NetworkData.removedKeywords
    removedAttrs = F21_NetworkData.removedAttrs

    def __init__(self, *args, **kwargs):
        F21_NetworkData.__init__(self, *args, **kwargs)
        self.bridgeslaves = kwargs.get('bridgeslaves', '')
        self.bridgeopts = kwargs.get('bridgeopts', '')
        self.bindto = kwargs.get('bindto', None)

class FC3_Network(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.bootprotoList = [BOOTPROTO_DHCP, BOOTPROTO_BOOTP, BOOTPROTO_STATIC]
        self.op = self._getParser()
        self.network = kwargs.get('network', [])

    def _getParser(self):
        op = KSOptionParser(prog='network')
        op.add_argument('--bootproto', dest='bootProto', default=BOOTPROTO_DHCP, choices=self.bootprotoList)
        op.add_argument('--dhcpclass')
        op.add_argument('--device')
        op.add_argument('--essid')
        op.add_argument('--ethtool')
        op.add_argument('--gateway')
        op.add_argument('--hostname')
        op.add_argument('--ip')
        op.add_argument('--mtu')
        op.add_argument('--nameserver')
        op.add_argument('--netmask')
        op.add_argument('--nodns', action='store_true', default=False)
        op.add_argument('--onboot', type=ksboolean)
        op.add_argument('--wepkey')
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        nd = self.dataClass()
        self.set_to_obj(ns, nd)
        nd.lineno = self.lineno
        if nd in self.dataList():
            warnings.warn(_('A network device with the name %s has already been defined.') % nd.device, KickstartParseWarning)
        return nd

    def dataList(self):
        return self.network

    @property
    def dataClass(self):
        return self.handler.NetworkData

class FC4_Network(FC3_Network):
    removedKeywords = FC3_Network.removedKeywords
    removedAttrs = FC3_Network.removedAttrs

    def _getParser(self):
        op = FC3_Network._getParser(self)
        op.add_argument('--notksdevice', action='store_true', default=False)
        return op

class FC6_Network(FC4_Network):
    removedKeywords = FC4_Network.removedKeywords
    removedAttrs = FC4_Network.removedAttrs

    def _getParser(self):
        op = FC4_Network._getParser(self)
        op.add_argument('--noipv4', action='store_true', default=False)
        op.add_argument('--noipv6', action='store_true', default=False)
        return op

class F8_Network(FC6_Network):
    removedKeywords = FC6_Network.removedKeywords
    removedAttrs = FC6_Network.removedAttrs

    def _getParser(self):
        op = FC6_Network._getParser(self)
        op.add_argument('--ipv6')
        return op

class F9_Network(F8_Network):
    removedKeywords = F8_Network.removedKeywords
    removedAttrs = F8_Network.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        F8_Network.__init__(self, writePriority, *args, **kwargs)
        self.bootprotoList.append(BOOTPROTO_QUERY)

    def _getParser(self):
        op = F8_Network._getParser(self)
        for action in op._actions:
            if '--bootproto' in action.option_strings:
                pass
                break
        return op

class F16_Network(F9_Network):
    removedKeywords = F9_Network.removedKeywords
    removedAttrs = F9_Network.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        F9_Network.__init__(self, writePriority, *args, **kwargs)
        self.bootprotoList.append(BOOTPROTO_IBFT)

    def _getParser(self):
        op = F9_Network._getParser(self)
        for action in op._actions:
            if '--bootproto' in action.option_strings:
                pass
                break
        op.add_argument('--activate', action='store_true', default=None)
        op.add_argument('--nodefroute', action='store_true', default=False)
        op.add_argument('--wpakey', default='')
        return op

class F18_Network(F16_Network):

    @property
    def hostname(self):
        for nd in self.dataList():
            if nd.hostname:
                return nd.hostname
        return None

class F19_Network(F18_Network):

    def _getParser(self):
        op = F18_Network._getParser(self)
        op.add_argument('--bondslaves', default='')
        op.add_argument('--bondopts', default='')
        op.add_argument('--vlanid')
        op.add_argument('--ipv6gateway', default='')
        return op

class F20_Network(F19_Network):

    def _getParser(self):

        def teamslaves_cb(value):
            teamslaves = []
            if value:
                parts = value.split("'")
                if len(parts) % 2 == 1:
                    if not parts[-1]:
                        parts = parts[:-1]
                    else:
                        parts.append('')
                it = iter(parts)
                for devs, cfg in zip(it, it):
                    devs = devs.strip(',').split(',')
                    for d in devs[:-1]:
                        teamslaves.append((d, ''))
                    teamslaves.append((devs[-1], cfg))
            return teamslaves
        op = F19_Network._getParser(self)
        op.add_argument('--teamslaves', type=teamslaves_cb)
        op.add_argument('--teamconfig', default='')
        return op

class F21_Network(F20_Network):

    def _getParser(self):
        op = F20_Network._getParser(self)
        op.add_argument('--interfacename', default='')
        return op

class F22_Network(F21_Network):

    def _getParser(self):
        op = F21_Network._getParser(self)
        op.add_argument('--bridgeslaves', default='')
        op.add_argument('--bridgeopts', default='')
        return op

    def parse(self, args):
        retval = F21_Network.parse(self, args)
        if retval.bridgeopts:
            if not retval.bridgeslaves:
                msg = _('Option --bridgeopts requires --bridgeslaves to be specified')
                raise KickstartParseError(msg, lineno=self.lineno)
            opts = retval.bridgeopts.split(',')
            for opt in opts:
                _key, _sep, value = opt.partition('=')
                if not value or '=' in value:
                    msg = _("Bad format of --bridgeopts, expecting key=value options separated by ','")
                    raise KickstartParseError(msg, lineno=self.lineno)
        return retval

class F24_Network(F22_Network):
    removedKeywords = F22_Network.removedKeywords
    removedAttrs = F22_Network.removedAttrs

    def parse(self, args):
        retval = F22_Network.parse(self, args)
        if retval.noipv4:
            retval.bootProto = ''
        return retval

class F25_Network(F24_Network):
    removedKeywords = F24_Network.removedKeywords
    removedAttrs = F24_Network.removedAttrs

    def _getParser(self):
        op = F24_Network._getParser(self)
        op.add_argument('--no-activate', default=None, dest='activate', action='store_false')
        return op

class F27_Network(F25_Network):
    removedKeywords = F25_Network.removedKeywords
    removedAttrs = F25_Network.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        self.bind_to_choices = [BIND_TO_MAC]
        F25_Network.__init__(self, writePriority, *args, **kwargs)

    def _getParser(self):
        op = F25_Network._getParser(self)
        op.add_argument('--bindto', dest='bindto', default=None, choices=self.bind_to_choices)
        return op

    def parse(self, args):
        retval = F25_Network.parse(self, args)
        if retval.bindto == BIND_TO_MAC:
            if retval.vlanid and (not retval.bondopts):
                msg = _('--bindto=%s is not supported for this type of device') % BIND_TO_MAC
                raise KickstartParseError(msg, lineno=self.lineno)
        return retval

class RHEL4_Network(FC3_Network):
    removedKeywords = FC3_Network.removedKeywords
    removedAttrs = FC3_Network.removedAttrs

    def _getParser(self):
        op = FC3_Network._getParser(self)
        op.add_argument('--notksdevice', action='store_true', default=False)
        return op

class RHEL5_Network(FC6_Network):
    removedKeywords = FC6_Network.removedKeywords
    removedAttrs = FC6_Network.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC6_Network.__init__(self, writePriority, *args, **kwargs)
        self.bootprotoList.append(BOOTPROTO_QUERY)

    def _getParser(self):
        op = FC6_Network._getParser(self)
        for action in op._actions:
            if '--bootproto' in action.option_strings:
                pass
                break
        return op

class RHEL6_Network(F9_Network):
    removedKeywords = F9_Network.removedKeywords
    removedAttrs = F9_Network.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        F9_Network.__init__(self, writePriority, *args, **kwargs)
        self.bootprotoList.append(BOOTPROTO_IBFT)

    def _getParser(self):
        op = F9_Network._getParser(self)
        for action in op._actions:
            if '--bootproto' in action.option_strings:
                pass
                break
        op.add_argument('--activate', action='store_true', default=None)
        op.add_argument('--nodefroute', action='store_true', default=False)
        op.add_argument('--vlanid')
        op.add_argument('--bondslaves')
        op.add_argument('--bondopts')
        return op

def validate_network_interface_name(name):
    vlan_id = None
    vlan, dot, id_candidate = name.partition('.')
    if dot:
        if vlan == 'vlan':
            return _("When using the <prefix>.<vlan id> interface name notation, <prefix> can't be equal to 'vlan'.")
        try:
            vlan_id = int(id_candidate)
        except ValueError:
            return _("If network --interfacename contains a '.', valid vlan id should follow.")
    empty, sep, id_candidate = name.partition('vlan')
    if sep and empty == '':
        try:
            vlan_id = int(id_candidate)
        except ValueError:
            return _("If network --interfacename starts with 'vlan', valid vlan id should follow.")
    if vlan_id is not None:
        if not MIN_VLAN_ID <= vlan_id <= MAX_VLAN_ID:
            return _('The vlan id is out of the %(minimum)d-%(maximum)d vlan id range.') % {'minimum': MIN_VLAN_ID, 'maximum': MAX_VLAN_ID}
    return None

class RHEL7_Network(F21_Network):

    def __init__(self, writePriority=0, *args, **kwargs):
        self.bind_to_choices = [BIND_TO_MAC]
        F21_Network.__init__(self, writePriority, *args, **kwargs)

    def _getParser(self):
        op = F21_Network._getParser(self)
        op.add_argument('--bridgeslaves', default='')
        op.add_argument('--bridgeopts', default='')
        op.add_argument('--no-activate', default=None, dest='activate', action='store_false')
        op.add_argument('--bindto', dest='bindto', default=None, choices=self.bind_to_choices)
        return op

    def parse(self, args):
        retval = F21_Network.parse(self, args)
        error_message = validate_network_interface_name(retval.interfacename)
        if error_message:
            raise KickstartParseError(error_message, lineno=self.lineno)
        if retval.bridgeopts:
            if not retval.bridgeslaves:
                msg = _('Option --bridgeopts requires --bridgeslaves to be specified')
                raise KickstartParseError(msg, lineno=self.lineno)
            opts = retval.bridgeopts.split(',')
            for opt in opts:
                _key, _sep, value = opt.partition('=')
                if not value or '=' in value:
                    msg = _("Bad format of --bridgeopts, expecting key=value options separated by ','")
                    raise KickstartParseError(msg, lineno=self.lineno)
        if retval.bindto == BIND_TO_MAC:
            if retval.vlanid and (not retval.bondopts):
                msg = _('--bindto=%s is not supported for this type of device') % BIND_TO_MAC
                raise KickstartParseError(msg, lineno=self.lineno)
        return retval
