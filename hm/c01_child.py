"""Plays the given episodes in this process (whose PYTHONHASHSEED the caller chose) and prints digests of their traces."""
import hashlib
import json
import os
import sys

sys.path.insert(0, os.environ.get("HM_REPO", "/repo"))
os.environ.setdefault("SDL_VIDEODRIVER", "offscreen")

import warnings  # noqa
warnings.simplefilter("ignore")
import logging  # noqa
logging.disable(logging.CRITICAL)

from hm import world as W  # noqa


def main():
    out = []
    for j in json.load(sys.stdin):
        try:
            env = W.make(j["name"], j["cfg"], j["seed"], reset=False)
            tr = W.run_trace(env, j["aseed"], j["steps"], j["seed"])
            out.append(dict(digests=[hashlib.sha1(repr(r).encode()).hexdigest() for r in tr],
                            routes=[getattr(v, "route", None) for v in env.road.vehicles][:3]))
        except Exception as e:  # noqa
            out.append(dict(error=repr(e)))
    print(json.dumps(out))


main()
