#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on the current source of treeno."""
import importlib
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if len(args) != 1:
        print("usage: check.py <property> [--quick|--thorough]")
        return 2
    pid = args[0]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    from engine.harness import Report
    from engine.world import Broken

    rep = Report(pid, tier)
    try:
        mod = importlib.import_module("rules." + pid.lower())
        rule = mod.run(rep, tier == "thorough")
        return rep.finish(rule, int(os.environ.get("VERIF_SEED") or 0))
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s the source no longer has what the rule is anchored in: %s" % (pid, e))
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s" % pid)
    return 2


if __name__ == "__main__":
    # the interpreter recurses deeply: give it a thread with a large stack
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(out[0] if out else 2)
