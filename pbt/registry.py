"""Property id -> Prop class; modules are imported on demand."""
import importlib

MODULES = {
    "bits": ["C01", "C02", "C03", "C04"],
    "machine": ["C05", "C06", "C07", "C08", "C09", "C14"],
    "instr": ["C10", "C11", "C12", "C13"],
    "cards": ["C15", "C16", "C17", "C18"],
    "symbols": ["C19", "C20", "C21", "C22"],
    "tools": ["C%d" % i for i in range(23, 31)],
    "agree": ["C31", "C32"],
    "usage": ["C33", "C34", "C35"],
}


class _Find(dict):
    def __missing__(self, pid):
        for mod, ids in MODULES.items():
            if pid in ids:
                m = importlib.import_module("pbt.props." + mod)
                cls = getattr(m, pid)
                assert cls.id == pid
                self[pid] = cls
                return cls
        raise KeyError(pid)


find = _Find()


def all_ids():
    return sorted(i for ids in MODULES.values() for i in ids)
