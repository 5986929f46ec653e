"""setup_cmd: nothing to build; makes sure the simulator can start here."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot, core  # noqa: E402,F401

res = core.run_isolated(lambda sc, ctx: ctx.log("alive"), {})
print("simulator:", res["status"], "on", boot.REPO)
sys.exit(0 if res["status"] == "ok" else 1)
