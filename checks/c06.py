"""C06: see checks/machine.py."""
from pyvc import runner
from checks import machine as M


def main():
    tasks = M.tasks_commands() + M.tasks_around() + [("section", k) for k in M.KINDS] + M.tasks_native()
    return runner.main("C06", tasks, M.run, trusted=M.TRUSTED)
