#!/usr/bin/env python3
"""Run one check: check.py C01"""
import os
import pathlib
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
os.environ.setdefault("PYTHONHASHSEED", "0")

if __name__ == "__main__":
    if os.environ.get("SA_CHILD") != "1":
        os.environ["SA_CHILD"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    if sys.argv[1:] == ["--self-test"]:
        import sa.check, sa.interp, sa.sql  # noqa: F401
        from sa.model import Program
        print("modules:", len(Program().mods))
        sys.exit(0)
    from sa.check import main, overdue
    rc, box = [], []
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=lambda: rc.append(main(sys.argv[1], box)), daemon=True)
    th.start()
    while th.is_alive():
        th.join(2)
        if th.is_alive() and box and overdue(box[0]):  # out of time: report what was decided so far
            rc.append(box[0].cut_short())
            break
    sys.stdout.flush()
    os._exit(rc[0] if rc else 4)
