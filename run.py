"""Runs one check: python3 run.py C13"""
import importlib
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

from sa.common import main  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1].upper()
    mod = importlib.import_module(f"checks.{pid.lower()}")
    sys.exit(main(pid, mod.run))
