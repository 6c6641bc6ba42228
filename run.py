"""python run.py <check> [substring of task]: decide one property (see DESIGN.md)."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('NUMBA_CACHE_DIR', '/tmp/symx_nbcache_unused')
os.environ['PYTHONHASHSEED'] = '0'
os.environ['OMP_NUM_THREADS'] = '1'
from symx import runner  # noqa: E402
rc = runner.main()
sys.stdout.flush()
os._exit(rc)
