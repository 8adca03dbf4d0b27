#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("PBT_REEXEC"):
    os.environ["PBT_REEXEC"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
import core  # noqa: E402

if __name__ == "__main__":
    try:
        rc = core.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
