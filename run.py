"""Entry point of every check: run.py <property> <quick|thorough> [--replay FILE]"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else os.environ.get("VERIF_TIER", "quick")
replay = shard = None
if "--replay" in sys.argv:
    rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    replay, tier, shard = rec["case"], rec["tier"], rec.get("shard")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)

from lib import mc  # noqa: E402

try:
    import drdmannturb  # noqa: E402

    assert os.path.realpath(drdmannturb.__file__).startswith(os.path.realpath(REPO) + "/"), drdmannturb.__file__
    module = importlib.import_module(f"checks.{pid.lower()}")
except BaseException:  # noqa: BLE001 - the code under test does not even import
    import traceback

    traceback.print_exc()
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    path = os.path.join(HERE, "evidence", "replay", f"{pid}-import.json")
    json.dump({"property": pid, "case": "import", "what": traceback.format_exc(), "tier": tier}, open(path, "w"))
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    os._exit(1)
rc = mc.main(pid, module, tier, seed, replay, shard)
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
