"""Import phyem from the tree under test ($VM_REPO, default /repo) without an X display.

phyem's package name is `phyem`, the repository directory is not: a scratch directory with a
symlink `phyem -> $VM_REPO` is put on sys.path.  phyem selects matplotlib's TkAgg backend when it is
imported, which needs a display; plotting is not observed, so the selection is made a no-op.
"""
import os
import sys
import warnings

sys.dont_write_bytecode = True
import matplotlib
matplotlib.use('Agg')
matplotlib.use = lambda *a, **k: None
warnings.simplefilter('ignore')

_root = os.environ['VM_ROOT']          # made by vm.main: contains the symlink
sys.path.insert(0, _root)
os.chdir(os.environ['VM_SCRATCH'])     # everything phyem writes by a relative path lands here

import phyem as ph                      # noqa: E402
import numpy as np                      # noqa: E402
np.seterr(all='ignore')
REPO = os.path.realpath(os.path.join(_root, 'phyem'))
