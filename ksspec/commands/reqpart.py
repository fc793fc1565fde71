from ksspec.version import F23
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.options import KSOptionParser
from ksspec.i18n import _

class F23_ReqPart(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=100, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.reqpart = kwargs.get('reqpart', False)
        self.addBoot = kwargs.get('addBoot', False)
        self.op = self._getParser()

    def _getParser(self):
        op = KSOptionParser(prog='reqpart')
        op.add_argument('--add-boot', action='store_true', dest='addBoot', default=False)
        return op

    def parse(self, args):
        if self.handler.autopart.seen:
            errorMsg = _("The %s and reqpart commands can't be used at the same time") % 'autopart'
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        if hasattr(self.handler, 'mount') and self.handler.mount.seen:
            errorMsg = _("The mount and reqpart commands can't be used at the same time")
            raise KickstartParseError(errorMsg, lineno=self.lineno)
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        self.reqpart = True
        return self

class RHEL7_ReqPart(F23_ReqPart):
    pass
