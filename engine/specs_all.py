import os, sys, glob, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs"))
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs", "s_*.py"))):
    importlib.import_module(os.path.basename(f)[:-3])
