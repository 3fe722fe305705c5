import importlib

MODS = {"C": "cchecks", "T": "tchecks", "M": "mchecks", "P": "pchecks", "M09": "iochecks", "M10": "iochecks", **{"P%d" % k: "pchecks2" for k in range(10, 16)}}


def get(pid):
    m = importlib.import_module(MODS.get(pid, MODS.get(pid[0])))
    return getattr(m, pid)()
