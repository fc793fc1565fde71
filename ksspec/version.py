import json
import os
with open(os.path.join(os.path.dirname(__file__), "registry.json")) as _f:
    REGISTRY = json.load(_f)
versionMap = REGISTRY["versions"]
globals().update({k.replace("DEVEL", "DEVEL"): v for k, v in versionMap.items()})


def versionToLongString(v):
    return str(v)
