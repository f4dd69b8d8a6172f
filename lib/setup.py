"builds everything the checks use (each check also builds what it needs on its own)"
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
vf.build(("driver", "py", "cli"))
