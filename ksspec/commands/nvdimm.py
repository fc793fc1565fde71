import warnings
from ksspec.base import BaseData, KickstartCommand
from ksspec.errors import KickstartParseError, KickstartParseWarning
from ksspec.options import KSOptionParser, commaSplit
from ksspec.constants import NVDIMM_MODE_SECTOR, NVDIMM_ACTION_RECONFIGURE, NVDIMM_ACTION_USE
from ksspec.version import F28
from ksspec.i18n import _

class F28_NvdimmData(BaseData):
    removedKeywords = BaseData.removedKeywords
    removedAttrs = BaseData.removedAttrs

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.action = kwargs.get('action', None)
        self.namespace = kwargs.get('namespace', '')
        self.mode = kwargs.get('mode', None)
        self.sectorsize = kwargs.get('sectorsize', None)
        self.blockdevs = kwargs.get('blockdevs', [])

    def __eq__(self, y):
        if not y:
            return False
        return self.action == y.action and self.namespace == y.namespace and (self.blockdevs == y.blockdevs)

    def __ne__(self, y):
        return not self == y

class F28_Nvdimm(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=80, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.actionList = kwargs.get('actionList', [])
        self.validActions = [NVDIMM_ACTION_RECONFIGURE, NVDIMM_ACTION_USE]
        self.validModes = [NVDIMM_MODE_SECTOR]
        self.op = self._getParser()

    def _getParser(self):
        op = KSOptionParser(prog='nvdimm')
        op.add_argument('action', choices=self.validActions, nargs=1, default=NVDIMM_ACTION_RECONFIGURE)
        op.add_argument('--namespace')
        op.add_argument('--blockdevs', type=commaSplit)
        op.add_argument('--mode', choices=self.validModes, default=NVDIMM_MODE_SECTOR)
        op.add_argument('--sectorsize', type=int)
        return op

    def parse(self, args):
        ns, extra = self.op.parse_known_args(args=args, lineno=self.lineno)
        if extra:
            raise KickstartParseError(_('Unexpected arguments to nvdimm command: %(arguments)s') % {'arguments': extra}, lineno=self.lineno)
        nvdimm_data = self.dataClass()
        self.set_to_obj(ns, nvdimm_data)
        nvdimm_data.lineno = self.lineno
        action = ns.action[0]
        nvdimm_data.action = action
        if nvdimm_data.namespace and nvdimm_data.blockdevs:
            raise KickstartParseError(_('Only one of --namespace and --blockdevs device specifications can be used'), lineno=self.lineno)
        if nvdimm_data in self.dataList():
            if nvdimm_data.namespace:
                warnings.warn(_('An action %(action)s on namespace %(namespace)s has already been defined.') % {'action': action, 'namespace': nvdimm_data.namespace}, KickstartParseWarning)
            if nvdimm_data.blockdevs:
                warnings.warn(_('An action %(action)s on devices %(blockdevs)s has already been defined.') % {'action': action, 'blockdevs': nvdimm_data.blockdevs}, KickstartParseWarning)
        if action == NVDIMM_ACTION_RECONFIGURE:
            if not nvdimm_data.namespace:
                raise KickstartParseError(_('Action %(action)s requires --namespace argument to be set') % {'action': action}, lineno=self.lineno)
            if nvdimm_data.mode == NVDIMM_MODE_SECTOR and (not nvdimm_data.sectorsize):
                raise KickstartParseError(_('Action %(action)s with mode %(mode)s requires --sectorsize argument to be set') % {'action': action, 'mode': nvdimm_data.mode}, lineno=self.lineno)
        elif action == NVDIMM_ACTION_USE:
            if not nvdimm_data.namespace and (not nvdimm_data.blockdevs):
                raise KickstartParseError(_('Action %(action)s requires --namespace or --blockdevs argument to be set') % {'action': action}, lineno=self.lineno)
        return nvdimm_data

    def dataList(self):
        return self.actionList

    @property
    def dataClass(self):
        return self.handler.NvdimmData
