"""setup_cmd: nothing has to be built; make sure the code imports and a map can be made."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
env.import_defdap()
from mc.fixtures import ebsd_map
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    m = ebsd_map((2, 2))
    n = len(m.data.orientation)
print('ok', n)
