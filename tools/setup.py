"""Nothing to compile: check that the interpreter and the code import."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
subprocess.check_call([sys.executable, '-B', '-c',
                       'import lxml, ncclient, pyang; '
                       'from dst import scenario, meta; print("ready")'],
                      cwd=here)
