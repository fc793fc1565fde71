"""Specification of the option layer: converters, list actions and error reporting."""
import os
from argparse import Action, ArgumentParser, ArgumentTypeError
from ksspec.errors import KickstartParseError

TRUE_WORDS = ("on", "yes", "true", "1")
FALSE_WORDS = ("off", "no", "false", "0")


def commaSplit(value):
    return [w for w in [v.strip() for v in value.split(',')] if w]


def ksboolean(value):
    if value.lower() in TRUE_WORDS:
        return True
    if value.lower() in FALSE_WORDS:
        return False
    raise ArgumentTypeError("invalid boolean value")


def mountpoint(value):
    return os.path.normpath(value) if value.startswith("/") else value


class ExtendAction(Action):
    def __call__(self, parser, namespace, values, option_string=None):
        old = getattr(namespace, self.dest, None)
        setattr(namespace, self.dest, values if old is None else old + values)


class ExtendConstAction(Action):
    def __call__(self, parser, namespace, values, option_string=None):
        old = getattr(namespace, self.dest, None)
        setattr(namespace, self.dest, self.const if old is None else old + self.const)


class KSOptionParser(ArgumentParser):
    def __init__(self, prog=None):
        ArgumentParser.__init__(self, prog=prog, description="", add_help=False, conflict_handler="resolve")
        self.lineno = None

    def remove_argument(self, arg):
        for action in list(self._actions):
            if arg in action.option_strings:
                self._remove_action(action)
                self._option_string_actions.pop(arg)
                return

    def error(self, message):
        raise KickstartParseError(message, lineno=self.lineno)

    def parse_args(self, args=None, lineno=None):
        self.lineno = lineno
        return ArgumentParser.parse_args(self, args)

    def parse_known_args(self, args=None, namespace=None, lineno=None):
        if lineno is not None:
            self.lineno = lineno
        return ArgumentParser.parse_known_args(self, args, namespace)
