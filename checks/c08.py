"""C08: see checks/machine.py."""
from pyvc import runner
from checks import machine as M


def main():
    tasks = [t for t in M.tasks_commands() if t[1] == "commands"] + M.tasks_section() + [t for t in M.tasks_around() if t[0] in ("include", "readfile")] + M.tasks_native()
    return runner.main("C08", tasks, M.run, trusted=M.TRUSTED)
