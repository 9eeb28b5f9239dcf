#!/usr/bin/env python3
"""python3 vf/check.py ID quick|thorough|replay [PATH]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vf import engine
if __name__ == "__main__":
    try:
        rc = engine.main(sys.argv)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
