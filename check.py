#!/opt/veriftools/pyvenv/bin/python3
import os, sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, "lib")]
import runner
try:
    rc = runner.main(sys.argv[1:])
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc(file=sys.stdout)
    rc = 2
sys.stdout.flush()
os._exit(rc)
