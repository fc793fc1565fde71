from pyvc import runner
from checks import cmdspec


def main():
    return runner.main("C04", cmdspec.tasks(), cmdspec.make("C04"), trusted=["specification functions /verif/ksspec"],
                       assumptions=["integers are mathematical; strings are z3 sequences; int(), str.lower/upper/strip, regular expressions and path normalisation are uninterpreted but shared by code and specification",
                                    "argument lists follow the argparse contract in pyvc/argp.py: any subset of options, any values, list options that share a field at most once each (repetition: bounded native runs)",
                                    "shlex splitting is not part of this property"])
