"checks that what the framework needs is there; nothing has to be built in advance"
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from harness import build
d, py, env, built = build.build()
build.clean(d)
print('la builds; C extension: %s' % built)
