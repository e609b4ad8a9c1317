"""python checks/run.py C03"""
import os
import sys

sys.dont_write_bytecode = True
# never take compiled code from a __pycache__ that may be out of date
sys.pycache_prefix = '/nonexistent'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pyvc.harness import main  # noqa: E402

sys.exit(main(sys.argv))
