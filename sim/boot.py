"""Load the library under test from the repository's working tree, behind the
seams.  SIM_REPO names another tree (used only while developing the checks)."""
import os
import sys
import warnings

REPO = os.environ.get('SIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(optional=()):
    from . import seams
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    seams.install()
    from . import monitor
    monitor.install_locks()
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import matplotlib
    matplotlib.use('Agg')
    import legume
    if 'autograd' not in optional:
        import legume.minimize
    assert os.path.abspath(legume.__file__).startswith(
        os.path.abspath(REPO) + os.sep), legume.__file__
    seams.install_ids()
    return legume
