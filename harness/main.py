"""Entry point: main.py <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from common import MachineryError  # noqa: E402

MODULES = {"C01": "chk_model", "C02": "chk_model", "C03": "chk_model", "C04": "chk_model", "C05": "chk_sim", "C06": "chk_opt", "C07": "chk_ocp", "C08": "chk_ocp",
           "C09": "chk_trans", "C10": "chk_trans", "C11": "chk_trans", "C12": "chk_al", "C13": "chk_dist", "C14": "chk_loop", "C15": "chk_data", "C16": "chk_net", "C17": "chk_msg", "C18": "chk_timeout", "C19": "chk_indirect", "C20": "chk_vec", "C21": "chk_kalman", "C22": "chk_chaos"}


def run():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    try:
        return importlib.import_module(MODULES[prop]).main(prop, tier)
    except MachineryError as exc:
        print("MACHINERY ERROR:", exc)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(run())
