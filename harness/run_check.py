"""run_check.py <property> <tier>: decide one property, write its evidence, exit 0 or 1."""
import importlib
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import offline  # noqa: E402,F401
import common   # noqa: E402

WHERE = dict(P01="check_instr", P02="check_instr", P03="check_instr", P04="check_instr", P05="check_instr", P06="check_instr", P07="check_instr", P17="check_instr", P18="check_instr", P19="check_flags", P11="check_life", P12="check_incl", P13="check_registry", P14="check_scan", P15="check_expr", P16="check_comp", P20="check_dat", P22="check_sim", P23="check_cmd", P24="check_manage", P25="check_gen", P26="check_access", P21="check_cdecl", P08="check_place", P09="check_trace", P10="check_trace")

if __name__ == "__main__":
    prop = sys.argv[1]
    try:
        mod = importlib.import_module(WHERE[prop])
        code = common.main(mod.CHECKS)
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
