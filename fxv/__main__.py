import os
import sys

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'  # one process per core, one thread per process
sys.dont_write_bytecode = True

from .harness import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
