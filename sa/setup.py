"""setup_cmd: builds the IR dumper."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print("irdump:", build.irdump())
