"""All specifications."""
import glob
import importlib
import os

for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec_*.py'))):
    importlib.import_module(os.path.basename(f)[:-3])
