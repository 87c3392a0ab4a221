import os, sys
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PVMON_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
import pvmon.watch  # solver watchers go in before the library binds its solvers
import pyvallocation
if not os.path.abspath(pyvallocation.__file__).startswith(os.path.abspath(REPO) + os.sep):
    print("wrong pyvallocation imported:", pyvallocation.__file__); sys.exit(3)
import logging
logging.disable(logging.CRITICAL)
from pvmon.core import main
sys.exit(main())
