"""Interactive helper: fake ray + evotorch on the path."""
import os, sys, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ.get("MC_REPO", "/repo"), "src"))
import logging as _l
_l.disable(_l.CRITICAL)
import torch
torch.set_num_threads(1)
from mc import fakeray
fakeray.install()
