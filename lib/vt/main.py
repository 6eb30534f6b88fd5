import importlib
import sys
import traceback

LOCK = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12"}
MODS = {"C10": "diff", "C13": "rvfi", "C14": "diff", "C15": "diff", "C16": "ucode", "C17": "vgen", "C18": "blocks", "C19": "blocks", "C20": "views", "C21": "multi", "C22": "soc"}


def main():
    pid = sys.argv[1]
    try:
        if pid in LOCK:
            from . import lock
            return lock.run(pid)
        return importlib.import_module("vt." + MODS[pid]).run(pid)
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE {pid}: the check itself failed")
        return 2


if __name__ == "__main__":
    sys.exit(main())
