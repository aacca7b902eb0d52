#!/opt/venv/bin/python
"""python run.py <property id> [--replay FILE]: run one check (see hm/core.py)."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("HM_CHILD"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["HM_CHILD"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)

for k, v in dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
                 SDL_VIDEODRIVER="offscreen", SDL_AUDIODRIVER="dummy", PYGAME_HIDE_SUPPORT_PROMPT="1").items():
    os.environ[k] = v
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HM_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import logging  # noqa
logging.disable(logging.CRITICAL)


def main():
    import importlib
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    from hm import core
    try:
        import highway_env
        assert os.path.dirname(os.path.abspath(highway_env.__file__)) == os.path.join(os.path.abspath(REPO), "highway_env")
        import gym
        gym.logger.set_level(40)
        module = importlib.import_module("hm.checks." + pid)
    except Exception:  # noqa
        import traceback
        traceback.print_exc()
        sys.exit(2)
    sys.exit(core.main(pid, module, replay))


if __name__ == "__main__":
    main()
