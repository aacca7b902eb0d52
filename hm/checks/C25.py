"""Goal environments: observations, rewards, success and goals recomputed from the vehicles and the landmark."""
import math

import numpy as np

from hm import world as W
from hm.world import henvs
from hm.checks.C23 import relocate

RULE = ("every reset and step of parking and summon episodes (both registered variants, one to four agents, permuted features, random scales, frequencies "
        "and traffic) with agents relocated onto and around the goal, plus the published reward function on random goals, batches, exponents and infos in "
        "various environment states; a case is one observation or one reward evaluation; distinct by content")
REQUIRED = {"observations": 2500, "goals": 250, "rewards": 1500, "success": 60, "not_success": 1200, "threshold": 20, "multi": 150, "batches": 200, "purity": 300,
            "crashed_summon": 20, "spots": 40, "ends": 6, "success_ends": 40, "partial_success": 4, "collected": 150}
W_ = np.array([1, .3, 0, 0, .02, .02])
KEYS = ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h"]


def features(o, speed):
    h = float(o.heading)
    return dict(presence=1, x=float(o.position[0]), y=float(o.position[1]), vx=speed * math.cos(h), vy=speed * math.sin(h), cos_h=math.cos(h), sin_h=math.sin(h))


def value(a, g, p=.5):
    return -np.power(np.abs(a - g) @ W_, p)


def config(rng, name):
    c = {"simulation_frequency": int(rng.choice([5, 15, 20])), "policy_frequency": int(rng.choice([1, 5, 5]))}
    obs = {"type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'], "scales": [100, 100, 5, 5, 1, 1], "normalize": False}
    k = rng.randint(3)
    if k == 0:
        obs["features"] = [KEYS[i] for i in rng.permutation(7)[:6]]
    if k <= 1:
        obs["scales"] = [float(x) for x in np.exp(rng.uniform(-1, 5, 6))]
    if rng.rand() < .3:  # options of other observations, without a meaning here
        obs["absolute" if rng.rand() < .6 else "clip"] = bool(rng.rand() < .6)
    act = {"type": "ContinuousAction"}
    if rng.rand() < .2:
        act["longitudinal" if rng.rand() < .5 else "lateral"] = False
    multi = name == "parking" and rng.rand() < .4
    if multi:
        c.update(controlled_vehicles=int(rng.randint(1, 5)), action={"type": "MultiAgentAction", "action_config": act},
                 observation={"type": "MultiAgentObservation", "observation_config": obs})
    else:
        c.update(action=act, observation=obs)
    if name == "summon":
        c["vehicles_count"] = int(rng.randint(0, 13))
        c["other_vehicles_type"] = W.TRAFFIC[rng.randint(4)]
    c["duration"] = 60
    return c, obs


class Episode:
    def __init__(self, ctx, env, obs_cfg, goal_spots):
        self.ctx, self.env, self.cfg = ctx, env, obs_cfg
        self.spots = goal_spots
        self.goal = None
        self.past = []

    def tup(self, obs):
        multi = "MultiAgent" in self.env.config["observation"]["type"]
        self.ctx.ok(isinstance(obs, tuple) == multi, "observation-type", "the observation is a %s" % type(obs).__name__)
        return obs if isinstance(obs, tuple) else (obs,)

    def start(self, obs):
        ctx, env = self.ctx, self.env
        g = env.goal
        self.goal = (float(g.position[0]), float(g.position[1]), float(g.heading))
        ctx.count("goals")
        ctx.ok(sum(o is g for o in env.road.objects) == 1, "goal-on-road", "the goal is not exactly once among the road objects")
        name = type(env).__name__
        if name.startswith("Summon"):
            ctx.ok(abs(self.goal[0]) == 40 and self.goal[1] == 0 and abs(W.wrap(self.goal[2])) < 1e-9, "goal-place", "the goal is at %r" % (self.goal,))
        else:
            fits = [i for i in W.all_indexes(env.road.network)
                    if np.linalg.norm(np.array(W.ref_position(W.lane_of(env.road.network, i), 4, 0)) - self.goal[:2]) < 1e-6
                    and abs(W.wrap(W.ref_heading(W.lane_of(env.road.network, i), 4) - self.goal[2])) < 1e-6
                    and abs(W.ref_length(W.lane_of(env.road.network, i)) - 8) < 1e-6]
            ctx.ok(len(fits) == 1, "goal-place", "the goal %r is at the centre of %d spots" % (self.goal, len(fits)))
        self.spots.add(self.goal)
        self.observe(obs)

    def observe(self, obs):
        ctx, env = self.ctx, self.env
        obs = self.tup(obs)
        agents = env.controlled_vehicles
        ctx.ok(len(obs) == len(agents), "observation-count", "%d observations for %d agents" % (len(obs), len(agents)))
        g = env.goal
        ctx.ok((float(g.position[0]), float(g.position[1]), float(g.heading)) == self.goal, "goal-moved", "the goal changed during the episode")
        for o, v in zip(obs, agents):
            ctx.count("observations")
            ctx.count("multi", len(obs) > 1)
            f = features(v, float(v.speed))
            want = np.array([f[k] for k in self.cfg["features"]]) / np.array(self.cfg["scales"], dtype=float)
            ctx.ok(set(o) == {"observation", "achieved_goal", "desired_goal"}, "goal-keys", "keys %r" % (sorted(o),))
            ctx.close(o["observation"], want, "observation", "the observation is not the scaled features of the agent", tol=1e-9)
            ctx.close(o["achieved_goal"], want, "achieved", "the achieved goal is not the scaled features of the agent", tol=1e-9)
            f = features(g, 0.)
            want = np.array([f[k] for k in self.cfg["features"]]) / np.array(self.cfg["scales"], dtype=float)
            ctx.close(o["desired_goal"], want, "desired", "the desired goal is not the scaled features of the landmark", tol=1e-9)
            self.past.append((o, {k: np.array(x, copy=True) for k, x in o.items()}))
            ctx.seen(np.round(o["observation"], 9))
        return obs

    def finish(self):
        for o, copies in self.past:
            self.ctx.count("collected")
            self.ctx.ok(all(np.array_equal(o[k], copies[k]) for k in copies), "observation-rewritten", "an observation returned earlier changed later")


def step(ctx, ep, env, action):
    obs, rew, done, info = env.step(action)
    tup = ep.observe(obs)
    crashed = bool(env.vehicle.crashed)
    summon = type(env).__name__.startswith("Summon")
    pen = -5. * crashed if summon else 0.
    ctx.count("crashed_summon", summon and crashed)
    vals = [float(value(o["achieved_goal"], o["desired_goal"])) + pen for o in tup]
    ctx.count("rewards")
    ctx.close(float(rew), sum(vals), "reward", "the reward is not the published function of the achieved and desired goals", tol=1e-9)
    pub = [float(env.compute_reward(o["achieved_goal"], o["desired_goal"], info)) for o in tup]
    ctx.close(pub, vals, "compute-reward", "compute_reward on the returned goals", tol=1e-9)
    ctx.close(float(rew), sum(pub), "reward-recomputed", "relabelling the transition does not give its reward back", tol=1e-9)
    if any(abs(x + .12) < 1e-9 for x in vals):
        return done
    ctx.count("threshold", any(abs(x + .12) < .03 for x in vals))
    want = [x > -.12 for x in vals]
    got = info["is_success"]
    got = list(got) if isinstance(got, tuple) else [got]
    ctx.ok([bool(x) for x in got] == want, "success", "is_success is %r for rewards %r" % (info["is_success"], vals))
    ctx.count("success", any(want))
    ctx.count("not_success", not all(want))
    ctx.count("partial_success", any(want) and not all(want))
    if all(want):
        ctx.count("success_ends")
        ctx.ok(bool(done), "success-goes-on", "the goal is reached and the episode is not over")
    elif not any(v.crashed for v in env.controlled_vehicles) and env.steps < env.config["duration"]:
        ctx.ok(not done, "ended-early", "the episode is over, rewards %r" % (vals,))
    return done


def near(rng, env, obs_cfg):
    """Around the success threshold of one agent."""
    g = env.goal
    v = env.controlled_vehicles[rng.randint(len(env.controlled_vehicles))]
    d = float(rng.uniform(0, .03)) * obs_cfg["scales"][0]
    a = rng.uniform(-math.pi, math.pi)
    v.position = np.array(g.position, dtype=float) + d * np.array([math.cos(a), math.sin(a)])
    v.heading = float(g.heading) + float(rng.choice([0, 0, .05, 1.]))
    v.speed = 0.
    v.on_state_update()


def episode(ctx, name, seed, goal_spots):
    rng = np.random.RandomState(seed)
    c, obs_cfg = config(rng, name)
    case = dict(env=name, config=c, seed=seed)
    with ctx.guard(case):
        env = W.make(name, c, seed=int(rng.randint(1 << 30)))
        ep = Episode(ctx, env, obs_cfg, goal_spots)
        ep.start(env._hm_first_obs)
        pol = W.Policy(rng)
        for t in range(ctx.n(12, 30)):
            k = rng.rand()
            if k < .25:
                near(rng, env, obs_cfg)
            elif k < .35:
                for v in env.controlled_vehicles:
                    v.position = np.array(env.goal.position, dtype=float)
                    v.heading, v.speed = float(env.goal.heading), 0.
                    v.on_state_update()
            elif k < .45:
                relocate(rng, env, name)
            elif k < .52 and len(env.road.vehicles) > len(env.controlled_vehicles):
                w = env.road.vehicles[-1]
                w.position = env.vehicle.position + rng.uniform(-2, 2, 2)
                w.on_state_update()
            done = step(ctx, ep, env, pol(env.action_space) if k > .35 else zero(env))
            if done:
                ep.finish()
                obs = env.reset()
                ep = Episode(ctx, env, obs_cfg, goal_spots)
                ep.start(obs)
            elif rng.rand() < .1:
                ep.finish()
                for o, _ in ep.past:
                    for x in o.values():     # the user owns what was returned
                        x[...] = np.nan
                ep.past = []
        ep.finish()


def zero(env):
    z = np.zeros
    sp = env.action_space
    return tuple(z(s.shape) for s in sp.spaces) if hasattr(sp, "spaces") else z(sp.shape)


def unit(ctx, name, quick):
    spots = set()
    for _ in range(ctx.n(quick, quick * 8)):
        if ctx.out_of_time():
            break
        episode(ctx, name, ctx.rng.randint(1 << 30), spots)
    ctx.count("ends" if name == "summon" else "spots", len(spots))


def goals(ctx):
    """Every spot is drawn, and never another place."""
    for name, n, places in (("parking", 240, 30), ("summon", 24, 2)):
        with ctx.guard(dict(env=name)):
            env = W.make(name, {"vehicles_count": 0} if name == "summon" else {}, seed=int(ctx.rng.randint(1 << 30)))
            seen = {}
            for _ in range(n):
                env.reset()
                k = (round(float(env.goal.position[0]), 6), round(float(env.goal.position[1]), 6))
                seen[k] = seen.get(k, 0) + 1
                ctx.seen(name, k, _)
            ctx.ok(len(seen) <= places, "goal-places", "%d distinct goals in %s" % (len(seen), name))
            # missing 3 of 30 spots in 240 uniform draws has probability < 1e-6
            ctx.ok(len(seen) >= places - 3 if places > 2 else len(seen) == 2, "goal-coverage", "only %d of %d goals were ever drawn" % (len(seen), places))


def function(ctx, name):
    """The published reward function on its own: formula, batches, exponents, purity."""
    cls = {"parking": henvs.ParkingEnv, "summon": henvs.SummonEnv, "parking-repeat": henvs.ParkingEnvActionRepeat,
           "summon-repeat": getattr(__import__("highway_env.envs.summon_env", fromlist=["x"]), "SummonEnvActionRepeat")}[name]
    env = cls()
    rng = ctx.rng
    env.seed(int(rng.randint(1 << 30)))
    env.reset()
    for t in range(ctx.n(120, 1500)):
        with ctx.guard(dict(env=name, t=t)):
            if t % 10 == 0:
                env.step(W.sample_action(env.action_space, rng))
            env.vehicle.crashed = bool(rng.rand() < .3)
            pen = -5. * env.vehicle.crashed if name.startswith("summon") else 0.
            n = int(rng.randint(1, 9))
            s = float(10 ** rng.uniform(-3, 1))
            a, g = rng.uniform(-s, s, (n, 6)), rng.uniform(-s, s, (n, 6))
            if rng.rand() < .1:
                g = a.copy()
            p = float(rng.choice([.5, .5, 1., 2., .25]))
            info = [{}, {"is_success": True}, None, {"crashed": True}][rng.randint(4)]
            a0, g0 = a.copy(), g.copy()
            batch = env.compute_reward(a, g, info, p)
            ctx.count("batches")
            ctx.close(batch, value(a, g, p) + pen, "batch", "compute_reward on a batch", tol=1e-9)
            one = [env.compute_reward(x, y, info, p) for x, y in zip(a, g)]
            ctx.close(one, batch, "batch-elements", "compute_reward on a batch differs from its elements", tol=1e-12)
            ctx.ok(np.array_equal(a, a0) and np.array_equal(g, g0), "reward-mutates", "compute_reward changed its arguments")
            ctx.count("purity")
            saved = np.array(env.vehicle.position, copy=True), env.steps
            env.vehicle.position = env.vehicle.position + rng.uniform(-9, 9, 2)
            env.steps += 7
            again = env.compute_reward(a, g, {"other": 1}, p)
            env.vehicle.position, env.steps = saved
            ctx.close(again, batch, "reward-impure", "compute_reward depends on more than the goals and the crash flag", tol=1e-12)
            ctx.close(env.compute_reward(g, a, info, p), batch, "reward-asymmetric", "compute_reward(a, g) differs from compute_reward(g, a)", tol=1e-9)
            ctx.seen(name, a, g, p)


def units(tier):
    return [("parking-%d" % k, unit, dict(name="parking", quick=45)) for k in range(3)] + \
        [("summon-%d" % k, unit, dict(name="summon", quick=32)) for k in range(3)] + \
        [("function-" + n, function, dict(name=n)) for n in ("parking", "summon", "parking-repeat", "summon-repeat")] + [("goals", goals, {})]
