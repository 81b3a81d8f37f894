#!/opt/venv/bin/python
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if "PYTHONHASHSEED" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.join(HERE, "run.py")] + sys.argv[1:])
from qv import env  # noqa
from qv import runner  # noqa

if __name__ == "__main__":
    rc = runner.main()
    sys.stdout.flush()
    os._exit(rc)
