"""Grayscale observations compared with the frame of the moment they are made, rendered again independently."""
import copy

import numpy as np

from hm import world as W
from highway_env.envs.common.graphics import EnvViewer

RULE = ("environments with random frame sizes (square and not), weights, stack sizes, scalings and actions, offscreen; a case is one observation, compared pixel by pixel with the frame rendered at the "
        "moment it is made by the environment's viewer and by a fresh one; distinct by content")
REQUIRED = {"observations": 150, "non_square": 60, "fresh_viewer": 40, "stacked": 200, "zero_layers": 35, "kept": 80, "distinct_frames": 100, "resets": 40, "multi_agent": 8, "passive": 60, "bright": 3}


def setup(rng, name, multi=False):
    w, h = int(rng.randint(30, 220)), int(rng.randint(30, 180))
    if rng.rand() < .2:
        h = w
    stack = int(rng.randint(1, 6))
    weights = [[0.2989, 0.5870, 0.1140], [1., 0., 0.], [.2, .3, .5], [0., .4, .1], [1., .5, 1.]][rng.randint(5)]
    oc = {"type": "GrayscaleObservation", "weights": weights, "stack_size": stack, "observation_shape": (w, h)}
    cfg = {"offscreen_rendering": True, "screen_width": w, "screen_height": h, "observation": oc, "scaling": float(rng.choice([1.75, 5.5, 9.])),
           "centering_position": [float(rng.uniform(.1, .9)), float(rng.uniform(.2, .8))], "policy_frequency": int(rng.choice([1, 5]))}
    if multi:
        cfg.update({"controlled_vehicles": 2, "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}},
                    "observation": {"type": "MultiAgentObservation", "observation_config": oc}})
    return cfg, oc, w, h


def drive(ctx, name, count, multi=False):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg, oc, w, h = setup(rng, name, multi)
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed, reset=False)
            weights, stack = np.array(oc["weights"]), oc["stack_size"]
            seen = {}
            ctx.count("bright", int(sum(weights) > 1))

            def luminance(viewer=None):
                img = np.asarray((viewer or env.viewer).get_image(), dtype=float)
                ctx.ok(img.shape == (h, w, 3), "frame-size", "frame of shape %s" % (img.shape,))
                return (img @ weights).T

            def compare(obs, agent, frame, previous):
                obs = np.asarray(obs, dtype=float)
                space = env.observation_space.spaces[agent] if multi else env.observation_space
                ctx.count("observations")
                ctx.count("non_square", int(w != h))
                ctx.count("multi_agent", int(multi))
                if not ctx.ok(obs.shape == (w, h, stack) == space.shape, "shape", "observation of shape %s, declared %s, screen %sx%s" % (obs.shape, space.shape, w, h)):
                    return
                scale = float(np.max(space.high)) / 255.
                ctx.close(obs[:, :, -1], frame * scale, "frame", "the last layer is not the current frame", tol=1e-4 * 255 * scale)
                if previous is None:
                    ctx.count("zero_layers", int(stack > 1))
                    ctx.ok(not np.any(obs[:, :, :-1]), "initial-layers", "earlier layers are not empty on the first observation")
                else:
                    ctx.count("stacked", stack - 1)
                    ctx.ok(np.array_equal(obs[:, :, :-1], previous[:, :, 1:]), "stack", "earlier layers are not the previous frames in order")
                ctx.seen(frame[::7, ::5])
                return obs

            for episode in range(2):
                obs = env.reset()
                ctx.count("resets")
                each = obs if multi else (obs,)
                frame = luminance()
                prev = [compare(o, a, frame, None) for a, o in enumerate(each)]
                prev = [np.array(p) if p is not None else None for p in prev]
                kept = [(obs, W.norm(obs))]
                inner = env.observation_type.observe
                passive = rng.rand() < .4   # never touch the environment's own rendering

                def observe():
                    o = inner()
                    if passive:
                        ctx.count("passive")
                        v = EnvViewer(env)
                        v.display()
                        seen["frame"] = luminance(v)
                        return o
                    env.render("rgb_array")
                    seen["frame"] = luminance()
                    if rng.rand() < .4:
                        ctx.count("fresh_viewer")
                        v = EnvViewer(env)
                        v.display()
                        ctx.close(luminance(v), seen["frame"], "fresh-viewer", "a fresh viewer shows another frame")
                    return o

                env.observation_type.observe = observe
                pol = W.Policy(rng)
                for t in range(5):
                    obs, _, done, _ = env.step(pol(env.action_space))
                    each = obs if multi else (obs,)
                    if any(p is None for p in prev):
                        break
                    ctx.count("distinct_frames", int(not np.array_equal(prev[0][:, :, -1], np.asarray(each[0])[:, :, -1])))
                    prev = [compare(o, a, seen["frame"], p) for (a, o), p in zip(enumerate(each), prev)]
                    prev = [np.array(p) if p is not None else None for p in prev]
                    kept.append((obs, W.norm(obs)))
                    if np.all(done):
                        break
                for o, n in kept:
                    ctx.count("kept")
                    ctx.ok(W.norm(o) == n, "aliased", "an observation already returned was modified by later steps")
            if e == 0:
                ctx.sample(env=name, config=cfg, mean_luminance=float(np.mean(prev[0])) if prev[0] is not None else None)
            env.close()


def units(tier):
    k = 8 if tier == "thorough" else 1
    out = []
    for i in range(k):
        out += [("%s-%d" % (n, i), drive, dict(name=n, count=c)) for n, c in (("highway", 7), ("merge", 8), ("roundabout", 6), ("intersection", 5), ("two-way", 8))]
        out.append(("highway-multi-%d" % i, drive, dict(name="highway", count=3, multi=True)))
    return out
