import importlib
import os
import sys


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from mc import core
    try:
        mod = importlib.import_module(f"mc.checks.{pid.lower()}")
        check = mod.Check()
    except Exception as e:  # the library cannot even be imported
        import traceback
        traceback.print_exc()
        os.makedirs(os.path.join(core.EVID, "replays"), exist_ok=True)
        rp = os.path.join(core.EVID, "replays", f"{pid}.json")
        import json
        with open(rp, "w") as f:
            json.dump({"property": pid, "message": f"import failed: {e!r}"}, f)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if tier == "replay":
        return core.replay_file(check, sys.argv[3])
    return core.explore(check, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
