class KickstartError(Exception):
    pass


class KickstartParseError(KickstartError):
    def __init__(self, msg="", lineno=None):
        KickstartError.__init__(self)
        self.message = msg
        self.lineno = lineno


class KickstartValueError(KickstartError):
    def __init__(self, msg="", lineno=None):
        KickstartError.__init__(self)
        self.message = msg
        self.lineno = lineno


class KickstartVersionError(KickstartError):
    pass


class KickstartWarning(Warning):
    pass


class KickstartParseWarning(KickstartWarning, UserWarning):
    pass


class KickstartDeprecationWarning(KickstartParseWarning, DeprecationWarning):
    pass
