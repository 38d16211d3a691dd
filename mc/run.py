import sys
from mc import core
if sys.argv[1] == 'replay':
    rc = core.replay(sys.argv[2])
else:
    rc = core.main(sys.argv[1], sys.argv[2])
sys.stdout.flush()
import os
os._exit(rc)
