"""python3 -m sa.check C05 [C06 ...]"""
import importlib
import os
import sys

WHERE = {
    "codec": ("C01", "C02", "C03", "C04", "C05", "C13", "C14", "C15", "C28", "C29"),
    "security": ("C06", "C07"),
    "conn": ("C08", "C09", "C10", "C11", "C12", "C25"),
    "params": ("C16", "C17", "C18", "C19", "C35"),
    "client": ("C20", "C21", "C24", "C37", "C38"),
    "transport": ("C22", "C23", "C32", "C33"),
    "effects": ("C26", "C27"),
    "tables": ("C34", "C36"),
}


def main(argv):
    from . import harness as H
    H.load()
    rc = 0
    for pid in argv:
        m = next(k for k, v in WHERE.items() if pid in v)
        mod = importlib.import_module("sa.props." + m)
        c = H.Check(pid)
        if os.environ.get("VERIF_TIER") == "thorough":
            H.SAMPLES[0] = 6000
            c.budget = 820
            H.PER_OB[0] = 600
        getattr(mod, pid)(c)
        rc = max(rc, c.finish())
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
