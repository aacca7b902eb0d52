"""Space conformance monitored on every observation and action of environments in every supported configuration."""
import copy

import gym
import numpy as np
from gym import spaces

import highway_env.envs as henvs
from hm import world as W
from highway_env.envs.common.abstract import AbstractEnv

RULE = ("every registered environment id, and every environment class under random supported observation and action configurations, driven with random, persistent and extreme actions of the "
        "action space until the episode ends (and again after resets); a case is one observation checked against the declared space; distinct by configuration and content")
REQUIRED = {"observations": 2500, "ids": 12, "configs": 120, "multi_agent": 60, "episodes_ended": 80, "continuous": 40, "rejected": 10, "unclipped": 8, "extreme_actions": 300, "reconfigured": 30,
            "goal": 100, "ttc": 100, "grid": 100, "kinematics": 300, "grayscale": 20, "attributes": 50}


def conforms(ctx, space, obs, what):
    """contained in the declared space, reported with the reason"""
    if isinstance(space, spaces.Tuple):
        if not ctx.ok(isinstance(obs, tuple) and len(obs) == len(space.spaces), "entries", "%s: %s entries for %d agents" % (what, len(obs) if isinstance(obs, tuple) else type(obs), len(space.spaces))):
            return
        for s, o in zip(space.spaces, obs):
            conforms(ctx, s, o, what)
    elif isinstance(space, spaces.Dict):
        if not ctx.ok(isinstance(obs, dict) and set(obs) == set(space.spaces), "keys", "%s: keys %s" % (what, list(obs))):
            return
        for k, s in space.spaces.items():
            conforms(ctx, s, obs[k], "%s[%s]" % (what, k))
    elif isinstance(space, spaces.Box):
        o = np.asarray(obs)
        if ctx.ok(o.shape == space.shape, "shape", "%s: shape %s, declared %s" % (what, o.shape, space.shape)):
            ctx.ok(np.all(np.isfinite(o)), "finite", "%s: not finite" % what)
            lo, hi = np.minimum(space.low, o).min() if o.size else 0, o.max() if o.size else 0
            ctx.ok(np.all(o >= space.low - 1e-6) and np.all(o <= space.high + 1e-6), "bounds",
                   "%s: values in [%s, %s] outside the declared [%s, %s]" % (what, lo, hi, space.low.min() if o.size else "", space.high.max() if o.size else ""))
    elif isinstance(space, spaces.Discrete):
        ctx.ok(space.contains(obs), "bounds", "%s: %s not in %s" % (what, obs, space))
    else:
        ctx.fail("no-space", "%s: no usable space declared (%s)" % (what, space))


def shape_of(obs):
    if isinstance(obs, tuple):
        return tuple(shape_of(o) for o in obs)
    if isinstance(obs, dict):
        return tuple((k, shape_of(o)) for k, o in sorted(obs.items()))
    return np.shape(obs)


def any_action(ctx, space, rng):
    k = rng.randint(3)
    if k == 0:
        space.seed(int(rng.randint(1 << 30)))
        return space.sample()
    if k == 1 and isinstance(space, spaces.Box):
        ctx.count("extreme_actions")
        return np.where(rng.rand(*space.shape) < .5, space.low, space.high).astype(np.float32)
    return W.sample_action(space, rng)


def drive(ctx, env, rng, steps, key, resets=2):
    base = env.unwrapped
    counted = {"Kinematics": "kinematics", "OccupancyGrid": "grid", "TimeToCollision": "ttc", "KinematicsGoal": "goal", "AttributesObservation": "attributes",
               "GrayscaleObservation": "grayscale"}
    oc = base.config["observation"]
    kind = oc.get("observation_config", oc)["type"]
    for ep in range(resets):
        obs = env.reset()
        shape = shape_of(obs)
        conforms(ctx, base.observation_space, obs, "reset observation")
        ctx.ok(base.observation_space == base.observation_type.space() and base.action_space == base.action_type.space(), "stale-space", "the declared spaces are not those of the types in use")
        style, held = rng.randint(3), None
        for t in range(steps):
            a = any_action(ctx, base.action_space, rng)
            if style == 1:
                a = held if held is not None else a
                held = a
            ctx.ok(base.action_space.contains(a), "harness-action", "sampled action outside of the space")
            res = env.step(copy.deepcopy(a))
            ctx.ok(isinstance(res, tuple) and len(res) == 4 and isinstance(res[3], dict), "step-result", "step returned %s" % type(res))
            obs, rew, done, info = res
            conforms(ctx, base.observation_space, obs, "step observation")
            ctx.ok(shape_of(obs) == shape, "shape-change", "shape changed from %s to %s" % (shape, shape_of(obs)))
            ctx.ok(np.all(np.isfinite(np.asarray(rew, dtype=float))), "reward", "reward %s" % (rew,))
            ctx.ok(all(isinstance(d, (bool, np.bool_)) for d in (done if isinstance(done, tuple) else (done,))), "done-type", "terminal flag %r" % (done,))
            ctx.count("observations")
            ctx.count(counted.get(kind, kind))
            ctx.count("multi_agent", int(isinstance(base.observation_space, spaces.Tuple)))
            ctx.count("continuous", int(isinstance(base.action_space, spaces.Box)))
            if isinstance(base.observation_space, spaces.Tuple):
                ctx.ok(len(obs) == base.config["controlled_vehicles"] == len(base.controlled_vehicles), "agents", "%d observations for %d agents" % (len(obs), base.config["controlled_vehicles"]))
            if isinstance(base.action_space, spaces.Tuple):
                ctx.ok(len(base.action_space.spaces) == base.config["controlled_vehicles"], "agents", "action space with %d entries" % len(base.action_space.spaces))
            if t % 3 == 0:
                ctx.seen(key, W.norm(obs))
            if np.all(done):
                ctx.count("episodes_ended")
                if rng.rand() < .3:  # stepping past the end must not corrupt the observations
                    obs = env.step(any_action(ctx, base.action_space, rng))[0]
                    conforms(ctx, base.observation_space, obs, "observation after the end")
                break


def ids(ctx, name, steps):
    with ctx.guard(dict(id=name)):
        ctx.count("ids")
        try:
            env = gym.make(name)
        except Exception as ex:  # noqa
            ctx.fail("make", "gym.make(%r) raised %s: %s" % (name, type(ex).__name__, ex))
            return
        env.seed(int(ctx.rng.randint(1 << 30)))
        if name == "highway-v0":
            env.unwrapped.configure({"vehicles_count": 12})
        drive(ctx, env, ctx.rng, steps, name)
        ctx.sample(id=name, space=str(env.unwrapped.observation_space)[:200], actions=str(env.unwrapped.action_space))
        cls = type(env.unwrapped)
        if "ActionRepeat" not in name and not isinstance(cls, type(None)):
            try:
                cfg = cls.default_config()
            except TypeError as ex:
                cfg = ex
            ctx.ok(isinstance(cfg, dict) and set(cfg) <= set(env.unwrapped.config), "default-config", "default_config() of %s is not its configuration" % cls.__name__)


def configs(ctx, name, count, steps):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg = W.random_env_config(rng, name)
        o = cfg.get("observation", {})
        o = o.get("observation_config", o)
        if o.get("type") == "Kinematics" and rng.rand() < .4:
            o[["normalize", "clip"][rng.randint(2)]] = False
            o["features"] = ["presence", "x", "y", "vx", "vy", "heading", "cos_d", "sin_d"][:int(rng.randint(3, 9))]
            ctx.count("unclipped")
        elif o.get("type") == "Kinematics" and rng.rand() < .2:
            o["features"] = ["x", "heading", "vy"]
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, config=cfg, seed=seed)):
            if rng.rand() < .35:    # configured after having been made (and played) otherwise
                env = W.make(name, W.random_env_config(rng, name), seed)
                if rng.rand() < .5:
                    env.step(any_action(ctx, env.action_space, rng))
                full = type(env).default_config()
                full.update(copy.deepcopy(W.ENVS[name][1]))
                full.update(copy.deepcopy(cfg))
                env.configure(full)
                ctx.count("reconfigured")
                env.reset()
                wanted = env.config["action"]
                wanted = wanted.get("action_config", wanted)
                driven = W.MDPVehicle if wanted["type"] == "DiscreteMetaAction" else W.BicycleVehicle if wanted.get("dynamical") else W.Vehicle
                ctx.ok(all(type(v) is driven for v in env.controlled_vehicles), "vehicle-class", "controlled vehicles %s for %s" % (env.controlled_vehicles, wanted))
            else:
                env = W.make(name, cfg, seed)
            ctx.count("configs")
            drive(ctx, env, rng, steps, repr(sorted(cfg)), resets=1 + int(rng.rand() < .3))


def gray(ctx, count):
    rng = ctx.rng
    for e in range(count):
        name = ["highway", "merge", "roundabout", "intersection", "two-way"][e % 5]
        w, h = int(rng.randint(40, 200)), int(rng.randint(40, 200))
        cfg = {"offscreen_rendering": True, "screen_width": w, "screen_height": h, "observation": {
            "type": "GrayscaleObservation", "weights": [0.2989, 0.5870, 0.1140], "stack_size": int(rng.randint(1, 5)), "observation_shape": (w, h)}}
        with ctx.guard(dict(env=name, config=cfg)):
            env = W.make(name, cfg, seed=int(rng.randint(1 << 30)))
            drive(ctx, env, rng, 4, repr(cfg))
            env.close()


def continuous(ctx, name):
    """the documentation offers every action type in every environment"""
    for e in range(4):
        cfg = {"action": {"type": "ContinuousAction", "lateral": bool(e != 1), "longitudinal": bool(e != 2)}, "observation": {"type": "Kinematics"}}
        with ctx.guard(dict(env=name, config=cfg)):
            env = W.make(name, cfg, seed=int(ctx.rng.randint(1 << 30)))
            ctx.count("configs")
            drive(ctx, env, ctx.rng, 10, repr(cfg))


def rejected(ctx):
    for name in W.ENVS:
        for bad in ({"observation": {"type": "NoSuchObservation"}}, {"action": {"type": "NoSuchAction"}}, {"action": {"type": ""}}, {"observation": {"type": "kinematics"}},
                    {"action": {"type": "MultiAgentAction", "action_config": {"type": "nothing"}}, "controlled_vehicles": 2},
                    {"action": {"type": "DiscreteMetaAction", "lateral": False, "longitudinal": False}}, {"action": {"type": "ContinuousAction", "lateral": False, "longitudinal": False}}):
            ctx.count("rejected")
            try:
                W.make(name, bad, 0)
            except ValueError:
                continue
            except Exception as ex:  # noqa
                ctx.fail("rejected", "%s with %s raised %s instead of rejecting the configuration" % (name, bad, type(ex).__name__))
                continue
            ctx.fail("rejected", "%s accepted %s" % (name, bad))


def units(tier):
    k = 8 if tier == "thorough" else 1
    per = {"highway": (12, 10), "merge": (10, 14), "roundabout": (8, 12), "intersection": (8, 12), "multi-intersection": (8, 10), "parking": (10, 40), "summon": (8, 30),
           "two-way": (12, 15), "lane-keeping": (4, 60)}
    out = [("id-" + i, ids, dict(name=i, steps=300 if tier == "thorough" and i != "highway-v0" else 25)) for i in W.IDS]
    out += [("%s-%d" % (name, i), configs, dict(name=name, count=n, steps=s)) for name, (n, s) in per.items() for i in range(2 * k)]
    out += [("gray-%d" % i, gray, dict(count=6)) for i in range(k)]
    out += [("continuous-" + n, continuous, dict(name=n)) for n in ("merge", "two-way", "intersection", "roundabout", "highway")]
    out.append(("rejected", rejected, {}))
    return out
