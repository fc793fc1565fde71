"""C07: see checks/machine.py."""
from pyvc import runner
from checks import machine as M


def main():
    tasks = M.tasks_section() + [("script", s) for s in M.SCRIPTS] + [("null", 0), ("null", 2)] + [t for t in M.tasks_commands() if t[1] == "section" or "percent" in t[2]] + [("text", True), ("text", False), ("putback",), ("include", "section")] + M.tasks_native()
    return runner.main("C07", tasks, M.run, trusted=M.TRUSTED)
