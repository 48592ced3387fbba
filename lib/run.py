"""run.py <property> [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

GROUPS = {"checks_forest": ["C01", "C02", "C03", "C04", "C05"], "checks_mt": ["C06"], "checks_dmi": ["C15", "C16", "C17", "C18"],
          "checks_octo": ["C11", "C12", "C13"],
          "checks_repo": ["C07", "C08", "C09", "C10", "C19"],
          "checks_parm": ["C20"], "checks_func": ["C21", "C22", "C23", "C24"],
          "checks_cell": ["C25"]}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vlib.Check(pid, tier, seed)
    for mod, ids in GROUPS.items():
        if pid in ids:
            try:
                __import__(mod).run(c)
                return c.finish()
            except vlib.Broken as e:
                vlib.log("BROKEN check %s: %s" % (pid, e))
                return 2
            except Exception:
                traceback.print_exc()
                return 2
    vlib.log("no such property", pid)
    return 2


sys.exit(main())
