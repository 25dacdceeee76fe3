#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONPATH"] = os.path.dirname(os.path.abspath(__file__)) + os.pathsep + os.environ.get("PYTHONPATH", "")
from dv.run import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
