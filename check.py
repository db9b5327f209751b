#!/opt/venv/bin/python
import os, sys
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'): os.environ.setdefault(v, '1')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
from main import main
sys.exit(main())
