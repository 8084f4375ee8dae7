import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import report
REG = {}
import importlib
for m in ("codec", "handlers", "tasks", "locks", "stop", "net", "conf", "sensor", "radio", "proxy", "aggregate", "match"):
    REG.update(importlib.import_module(m).REG)
if __name__ == "__main__":
    sys.exit(report.main(REG))
