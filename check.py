#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decides one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib

MODULES = {}
for mod, ids in dict(p_vercmp="C23 C24", p_cpio="C04 C05 C06", p_extract="C01 C02 C03", p_payload="C07 C08",
                     p_header="C09 C10 C11 C12 C13", p_sighdr="C14 C22", p_trust="C15 C16 C17 C18 C19",
                     p_rewrite="C20 C21", p_fault="C25", p_inter="C26", p_xfault="C27").items():
    for i in ids.split():
        MODULES[i] = mod


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    run = vlib.Run(pid, tier, seed)
    try:
        importlib.import_module(MODULES[pid]).check(run)
        run.evidence(0)
        print("%s: held on everything explored (%d states, %d traces)" % (pid, run.states, run.traces))
        return 0
    except vlib.Violation as v:
        run.evidence(1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        return 1
    except vlib.CheckError as e:
        print("ERROR of the check %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
