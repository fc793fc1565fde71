from ksspec.version import FC3, F8, RHEL6, F29, F34
from ksspec.base import KickstartCommand
from ksspec.errors import KickstartParseError
from ksspec.i18n import _
from ksspec.options import KSOptionParser, commaSplit

class FC3_IgnoreDisk(KickstartCommand):
    removedKeywords = KickstartCommand.removedKeywords
    removedAttrs = KickstartCommand.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.op = self._getParser()
        self.ignoredisk = kwargs.get('ignoredisk', [])

    def _getParser(self):
        op = KSOptionParser(prog='ignoredisk')
        op.add_argument('--drives', dest='ignoredisk', type=commaSplit, required=True)
        return op

    def parse(self, args):
        ns = self.op.parse_args(args=args, lineno=self.lineno)
        self.set_to_self(ns)
        return self

class F8_IgnoreDisk(FC3_IgnoreDisk):
    removedKeywords = FC3_IgnoreDisk.removedKeywords
    removedAttrs = FC3_IgnoreDisk.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        FC3_IgnoreDisk.__init__(self, writePriority, *args, **kwargs)
        self.onlyuse = kwargs.get('onlyuse', [])

    def parse(self, args):
        retval = FC3_IgnoreDisk.parse(self, args)
        howmany = 0
        if self.ignoredisk:
            howmany += 1
        if self.onlyuse:
            howmany += 1
        if howmany != 1:
            raise KickstartParseError(_('One of --drives or --only-use must be specified for ignoredisk command.'), lineno=self.lineno)
        return retval

    def _getParser(self):
        op = FC3_IgnoreDisk._getParser(self)
        op.add_argument('--drives', dest='ignoredisk', type=commaSplit)
        op.add_argument('--only-use', dest='onlyuse', type=commaSplit)
        return op

class RHEL6_IgnoreDisk(F8_IgnoreDisk):
    removedKeywords = F8_IgnoreDisk.removedKeywords
    removedAttrs = F8_IgnoreDisk.removedAttrs

    def __init__(self, writePriority=0, *args, **kwargs):
        F8_IgnoreDisk.__init__(self, writePriority, *args, **kwargs)
        self.interactive = kwargs.get('interactive', False)

    def parse(self, args):
        retval = FC3_IgnoreDisk.parse(self, args)
        howmany = 0
        if self.ignoredisk:
            howmany += 1
        if self.onlyuse:
            howmany += 1
        if self.interactive:
            howmany += 1
        if howmany != 1:
            raise KickstartParseError(_('One of --drives , --only-use , or --interactive must be specified for ignoredisk command.'), lineno=self.lineno)
        if self.interactive:
            self.ignoredisk = []
        return retval

    def _getParser(self):
        op = F8_IgnoreDisk._getParser(self)
        op.add_argument('--interactive', action='store_true', default=False)
        return op

class F14_IgnoreDisk(RHEL6_IgnoreDisk):
    pass

class F29_IgnoreDisk(F14_IgnoreDisk):
    removedKeywords = F14_IgnoreDisk.removedKeywords
    removedAttrs = F14_IgnoreDisk.removedAttrs

    def parse(self, args):
        return F8_IgnoreDisk.parse(self, args)

    def _getParser(self):
        op = F14_IgnoreDisk._getParser(self)
        op.add_argument('--interactive', action='store_true', default=False)
        return op

class F34_IgnoreDisk(F29_IgnoreDisk):
    removedKeywords = F29_IgnoreDisk.removedKeywords
    removedAttrs = F29_IgnoreDisk.removedAttrs

    def _getParser(self):
        op = F29_IgnoreDisk._getParser(self)
        op.remove_argument('--interactive')
        return op
