import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa

pid = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
mod = importlib.import_module('checks.' + pid.lower())
sys.exit(core.run(pid, mod.main, tier, seed))
