import os
import sys
D = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PV_REPO", "/repo")
sys.path.insert(0, D)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
from pv.runner import main
sys.exit(main())
