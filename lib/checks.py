"""Table of the checks."""
import importlib, os
CHECKS = {}
for m in ("stepchecks", "iochecks", "runchecks", "ompchecks", "faultchecks", "simchecks", "reportchecks", "metachecks"):
    if os.path.exists(os.path.join(os.path.dirname(__file__), m + ".py")): CHECKS.update(importlib.import_module(m).CHECKS)
