import sys
from .engine import main
sys.exit(main('mc.checks.' + sys.argv[1], sys.argv[2:]))
