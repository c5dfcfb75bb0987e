import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import core
core.setup_path()
sys.exit(core.main(sys.argv[1:]))
