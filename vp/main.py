import os
import sys
sys.dont_write_bytecode = True
sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from vp.kit import main
sys.exit(main())
