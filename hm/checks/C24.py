"""Time, termination and info: what each step simulated, and when episodes end, watched from inside the step."""
import math

import gym
import numpy as np

from hm import world as W
from hm.checks import C23
from hm.checks.C23 import action_names, relocate, arrived, on_road, goal_term

RULE = ("every step of episodes of all environments (and of all registered ids) under random simulation and policy frequencies, durations, action "
        "types, numbers of agents and off-road rules, with vehicles relocated next to terminal conditions; every vehicle's act and step and every "
        "road step is recorded; a case is one policy step; distinct by environment, frequencies and terminal cause")
REQUIRED = {"closed": 20, "steps": 2500, "sim_steps": 15000, "vehicle_acts": 60000, "early_stops": 60, "terminal": 200, "crash": 60, "time": 40, "offroad": 5, "arrival": 8,
            "road_end": 25, "success": 8, "not_terminal": 1200, "info": 2400, "agents_dones": 200, "tuple_steps": 40, "tuple_mixed": 8, "manual": 30, "frequencies": 200, "registered": 12,
            "limit_reached": 4, "no_action": 40, "fraction_of_second": 80, "cost_left_lane": 30, "fractional": 20}


class Marginal(BaseException):
    pass


def success(env):
    t = [goal_term(env, v) for v in env.controlled_vehicles]
    if hasattr(env, "COLLISION_REWARD"):
        t = [x + env.COLLISION_REWARD * bool(env.vehicle.crashed) for x in t]
    t = [goal_velocity(env, v, x) for v, x in zip(env.controlled_vehicles, t)]
    if any(abs(x + .12) < 1e-6 for x in t):
        raise Marginal()
    return all(x > -.12 for x in t)


def goal_velocity(env, v, x):
    return x     # the published weights ignore velocities


def causes(env, name):
    """The documented terminal conditions that hold now (None entries mean too close to a threshold to tell)."""
    v, c, out = env.vehicle, env.config, []
    try:
        if name in ("highway", "roundabout", "merge", "two-way"):
            out += ["crash"] * bool(v.crashed)
        if name == "highway":
            out += ["time"] * (env.steps >= c["duration"] * c["policy_frequency"])
            if c["offroad_terminal"] and not on_road(env, v):
                out.append("offroad")
        elif name == "roundabout":
            out += ["time"] * (env.steps >= c["duration"])
        elif name == "merge":
            if abs(v.position[0] - 370) < 1e-9:
                raise Marginal()
            out += ["road_end"] * bool(v.position[0] > 370)
        elif name in ("intersection", "multi-intersection"):
            out += ["crash"] * any(w.crashed for w in env.controlled_vehicles)
            out += ["arrival"] * all(arrived(env, w) for w in env.controlled_vehicles)
            out += ["time"] * (env.steps >= c["duration"] * c["policy_frequency"])
        elif name in ("parking", "summon"):
            out += ["crash"] * any(w.crashed for w in env.controlled_vehicles)
            out += ["time"] * (env.steps >= c["duration"])
            out += ["success"] * success(env)
    except C23.Marginal:
        raise Marginal()
    return out


class Watch:
    """Records, inside one policy step, which vehicles acted and moved, with what and in which order."""

    def __init__(self, ctx, env, name):
        self.ctx, self.env, self.name = ctx, env, name
        self.log = []
        self.wrapped = {}
        self.dt = 1 / env.config["simulation_frequency"]
        self.commands = []
        self.sim = 0
        self.stop_expected = False
        self.marginal = False
        W.tap(env.road, before_act=self.before_act, after_act=self.after_act, before_step=self.before_step, after_step=self.after_step)
        self.hook()

    def hook(self):
        for v in self.env.road.vehicles:
            if id(v) in self.wrapped:
                continue
            self.wrapped[id(v)] = v
            act, step = v.act, v.step

            def act_(action=None, v=v, act=act):
                if action is not None:
                    self.commands.append((v, action, self.sim, len(self.log)))
                self.log.append(("act", id(v)))
                return act(action)

            def step_(dt, v=v, step=step):
                self.log.append(("step", id(v)))
                self.ctx.close(float(dt), self.dt, "vehicle-dt", "a vehicle moved by another time step than the simulation's", tol=1e-12)
                return step(dt)

            v.act, v.step = act_, step_

    def before_act(self):
        self.hook()
        self.ctx.ok(not self.stop_expected or self.marginal, "late-stop:" + self.name, "the simulation went on after a terminal condition was reached")
        self.present = [id(v) for v in self.env.road.vehicles]
        self.log = []
        self.phase = "act"

    def after_act(self):
        acted = sorted(x for k, x in self.log if k == "act")
        self.ctx.count("vehicle_acts", len(acted))
        self.ctx.ok(acted == sorted(self.present), "acts", "not every vehicle on the road decided exactly once in a simulation step")
        self.ctx.ok(not any(k == "step" for k, _ in self.log), "moved-while-acting", "a vehicle moved before all had decided")
        self.phase = "acted"
        self.log = []

    def before_step(self, dt):
        self.ctx.ok(getattr(self, "phase", None) == "acted", "step-without-act", "the road was stepped without vehicles deciding")
        self.ctx.close(float(dt), self.dt, "road-dt", "the road moved by another time step than 1/simulation_frequency", tol=1e-12)

    def after_step(self, dt):
        moved = sorted(x for k, x in self.log if k == "step")
        self.ctx.ok(moved == sorted(self.present), "moves", "not every vehicle on the road moved exactly once in a simulation step")
        self.phase = "stepped"
        self.sim += 1
        self.ctx.count("sim_steps")
        try:
            c = causes(self.env, self.name)
            self.stop_expected = bool(c)
        except Marginal:
            self.marginal = True


def expected_cost(env, name):
    if name == "two-way":
        return float(bool(env.vehicle.crashed)) + (1 / 15 if env.vehicle.lane_index[2] == 0 else 0)
    return float(bool(env.vehicle.crashed))


def config(rng, name):
    c = C23.config(rng, name)
    if rng.rand() < .7:
        sf = int(rng.choice([3, 5, 7, 10, 15, 20, 30]))
        pf = int(rng.choice([p for p in (1, 2, 3, 4, 5, 10, 15) if p <= sf]))
        c.update(simulation_frequency=sf, policy_frequency=pf)
        if rng.rand() < .15 and name in ("highway", "merge", "two-way", "roundabout", "parking"):
            c.update(simulation_frequency=int(rng.choice([5, 10])), policy_frequency=.5)
    if name in ("highway", "roundabout", "intersection", "multi-intersection", "parking", "summon"):
        c["duration"] = [1, 2, 3, 5, 20, .6, 1.5, 2.4][rng.randint(8)]
    if name == "highway":
        c["offroad_terminal"] = bool(rng.rand() < .5)
    if rng.rand() < .06 and name != "lane-keeping":
        c["manual_control"] = True
    return c


def push(rng, env, name):
    """Relocate so that a terminal condition is about to be met."""
    if rng.rand() < .5:
        relocate(rng, env, name)
        return
    v = env.vehicle
    net = env.road.network
    if name == "merge":
        i = [("c", "d", 0), ("c", "d", 1)][rng.randint(2)]
        lane = W.lane_of(net, i)
        C23.place(v, lane, i, 370 - 310 + float(rng.uniform(-40, 2)), 0, 30.)
    elif name == "highway":
        v.position = np.array([v.position[0], float(rng.choice([-1.9, 4 * (env.config["lanes_count"] - 1) + 1.9]))])
        v.heading = float(rng.choice([-.3, .3]))
        v.on_state_update()
    elif name in ("intersection", "multi-intersection"):
        for w in env.controlled_vehicles:
            idxs = [i for i in W.all_indexes(net) if i[1].startswith("o") and i[0].startswith("il")]
            idx = idxs[rng.randint(len(idxs))]
            C23.place(w, W.lane_of(net, idx), idx, 25 + float(rng.uniform(-12, 1)), 0, 9.)
    elif len(env.road.vehicles) > 1 and name != "lane-keeping":
        w = env.road.vehicles[rng.randint(len(env.road.vehicles))]
        if all(w is not x for x in env.controlled_vehicles):
            d = float(rng.uniform(5.5, 14))
            w.position = v.position + d * np.array([math.cos(v.heading), math.sin(v.heading)])
            w.speed = 0.
            w.on_state_update()


def episode(ctx, name, seed):
    rng = np.random.RandomState(seed)
    c = config(rng, name)
    env = W.make(name, c, seed=int(rng.randint(1 << 30)))
    cfg = env.config
    n = int(cfg["simulation_frequency"] // cfg["policy_frequency"])
    ctx.ok(env.steps == 0 and env.time == 0, "reset-clock", "steps and time are %r, %r after a reset" % (env.steps, env.time))
    pol = W.Policy(rng)
    names = action_names(cfg)
    watch = Watch(ctx, env, name)
    ctx.count("frequencies")
    ctx.count("fractional", cfg["policy_frequency"] < 1)
    time = 0
    for t in range(ctx.n(12, 25)):
        with ctx.guard(dict(env=name, config=c, seed=seed, step=t)):
            if rng.rand() < .3:
                push(rng, env, name)
            action = pol(env.action_space)
            if name in ("highway", "two-way", "roundabout", "intersection", "parking", "summon") and rng.rand() < .04:
                action = None
                ctx.count("no_action")
            watch.commands, watch.sim, watch.stop_expected, watch.marginal = [], 0, False, False
            try:
                obs, rew, done, info = env.step(action)
            except Exception:
                raise
            ctx.count("steps")
            time += watch.sim
            # the action is applied once, to the agents it is for, before anything is simulated
            want = 0 if cfg["manual_control"] or action is None else 1
            ctx.count("manual", cfg["manual_control"])
            agents = env.controlled_vehicles if "MultiAgent" in cfg["action"]["type"] else [env.vehicle]
            for k, v in enumerate(agents):
                got = [x for x in watch.commands if x[0] is v]
                if not ctx.ok(len(got) == want, "action-count", "the action was applied %d times to agent %d in one step" % (len(got), k)):
                    continue
                if got:
                    ctx.ok(got[0][2] == 0, "action-late", "the action was applied after %d simulation steps" % got[0][2])
                    if names:
                        a = action[k] if isinstance(action, tuple) else action
                        ctx.ok(got[0][1] == names[a], "action-value", "agent %d was told %r for action %r" % (k, got[0][1], a))
            ctx.ok(all(any(x[0] is v for v in agents) for x in watch.commands), "action-stray", "an action reached a vehicle that is not controlled")
            # the simulated time
            ctx.ok(watch.sim <= n, "too-long", "%d simulation steps in a policy period of %d" % (watch.sim, n))
            if watch.sim < n and not watch.marginal:
                ctx.count("early_stops")
                ctx.ok(watch.stop_expected, "too-short:" + name, "only %d of %d simulation steps, and no terminal condition holds" % (watch.sim, n))
            if name != "lane-keeping":
                ctx.ok(env.steps == t + 1, "steps-count", "steps is %r after %d steps" % (env.steps, t + 1))
            ctx.ok(env.time == time, "time-count", "time is %r after %d simulation steps" % (env.time, time))
            # the end of the episode
            try:
                why = causes(env, name)
            except Marginal:
                return
            for k in why:
                ctx.count(k)
            ctx.count("fraction_of_second", int("time" in why and cfg["duration"] != int(cfg["duration"])))
            ctx.count("terminal" if why else "not_terminal")
            ctx.seen(name, n, tuple(why), t, seed)
            ctx.ok(np.ndim(done) == 0, "done-shape", "the terminal flag is not a single flag")
            ctx.ok(bool(done) == bool(why), "terminal:" + name, "done is %r and the documented conditions that hold are %r" % (done, why))
            # info
            if name == "lane-keeping":
                continue
            ctx.count("info")
            for k in ("speed", "crashed", "action"):
                ctx.ok(k in info, "info-" + k, "info has no %r" % k)
            ctx.close(float(info["speed"]), float(env.vehicle.speed), "info-speed", "info speed", tol=1e-9)
            ctx.ok(bool(info["crashed"]) == bool(env.vehicle.crashed), "info-crashed", "info crashed")
            ctx.ok(W.norm(info["action"]) == W.norm(action), "info-action", "info action %r for %r" % (info["action"], action))
            if name in ("highway", "two-way", "intersection", "multi-intersection"):
                ctx.ok("cost" in info, "info-cost", "no cost reported")
                want = expected_cost(env, name)
                ctx.count("cost_left_lane", name == "two-way" and env.vehicle.lane_index[2] == 0)
                ctx.close(float(info["cost"]), want, "cost:" + name, "reported cost", tol=1e-9)
            if "agents_dones" in info or "intersection" in name:
                d = info["agents_dones"]
                ctx.ok(len(d) == len(env.controlled_vehicles), "agents-dones-length", "one flag per agent expected")
                over = env.steps >= cfg["duration"] * cfg["policy_frequency"]
                for v, x in zip(env.controlled_vehicles, d):
                    ctx.count("agents_dones")
                    try:
                        ctx.ok(bool(x) == bool(v.crashed or over or arrived(env, v)), "agent-done", "per-agent terminal flag %r" % x)
                    except C23.Marginal:
                        pass
            if why and rng.rand() < .6:
                return
            if why:     # a new episode in the same environment, closed or not in between
                if rng.rand() < .5:
                    env.close()
                    ctx.count("closed")
                env.reset()
                ctx.ok(env.steps == 0 and env.time == 0, "reset-clock", "steps and time are %r, %r after a reset" % (env.steps, env.time))
                return episode_tail(ctx, env, name, c, n, rng, seed)
            for w in env.controlled_vehicles:
                w.crashed = False


def episode_tail(ctx, env, name, c, n, rng, seed):
    """One more step after a reset: the clock starts again and the first period is a full one."""
    watch = Watch(ctx, env, name)
    action = W.sample_action(env.action_space, rng)
    with ctx.guard(dict(env=name, config=c, seed=seed, step="after reset")):
        env.step(action)
        ctx.count("after_reset")
        if not watch.marginal:
            ctx.ok(watch.sim == n or watch.stop_expected, "too-short:" + name, "%d of %d simulation steps in the first period after a reset" % (watch.sim, n))
        agents = env.controlled_vehicles if "MultiAgent" in env.config["action"]["type"] else [env.vehicle]
        for v in agents:
            k = sum(x[0] is v for x in watch.commands)
            ctx.ok(k == (0 if env.config["manual_control"] else 1), "action-count", "the action was applied %d times in the first step after a reset" % k)


def unit(ctx, name, quick):
    for _ in range(ctx.n(quick, quick * 8)):
        if ctx.out_of_time():
            break
        episode(ctx, name, ctx.rng.randint(1 << 30))


LIMITS = {"parking-v0": None, "summon-v0": 100, "summon-ActionRepeat-v0": 20, "two-way-v0": 15, "lane-keeping-v0": 200}
PERIODS = {"parking-v0": 3, "parking-ActionRepeat-v0": 15, "summon-v0": 3, "summon-ActionRepeat-v0": 15, "lane-keeping-v0": 1, "two-way-v0": 15,
           "merge-v0": 15, "roundabout-v0": 15, "highway-v0": 15, "intersection-v0": 15, "intersection-multi-agent-v0": 15,
           "intersection-multi-agent-v1": 15}


def registered(ctx):
    """The registered ids: their published policy periods, step limits and multi-agent return values."""
    for name in W.IDS:
        with ctx.guard(dict(id=name)):
            env = gym.make(name)
            u = env.unwrapped
            if name == "highway-v0":
                u.configure({"vehicles_count": 3})
            elif "intersection" in name:
                u.configure({"initial_vehicle_count": 3})
            env.seed(int(ctx.rng.randint(1 << 30)))
            env.reset()
            sims = []
            W.tap(u.road, after_step=lambda dt: sims.append(dt))
            limit = LIMITS.get(name)
            steps = limit if limit and limit <= 20 else 2
            ctx.count("registered")
            done = False
            for t in range(steps):
                before = len(sims)
                a = W.sample_action(env.action_space, ctx.rng)
                if name == "two-way-v0":
                    a = 1
                _, rew, done, info = env.step(a)
                ctx.seen(name, t)
                k = len(sims) - before
                if not np.any(done):
                    ctx.ok(k == PERIODS[name], "registered-period", "%s simulates %d steps per policy step, %d published" % (name, k, PERIODS[name]))
                if name == "intersection-multi-agent-v1":
                    ctx.ok(isinstance(rew, tuple) and isinstance(done, tuple) and len(rew) == len(done) == len(u.controlled_vehicles),
                           "tuple-agents", "rewards and terminal flags are not one per agent")
                    ctx.ok(tuple(rew) == tuple(info["agents_rewards"]) and tuple(done) == tuple(info["agents_dones"]), "tuple-agents",
                           "rewards and flags differ from the reported per-agent ones")
                if np.any(done):
                    break
            if limit and limit <= 20 and t + 1 == limit:
                ctx.count("limit_reached")
                ctx.ok(bool(done), "step-limit", "%s goes on after %d steps" % (name, limit))


def tuple_agents(ctx, n):
    """The environment that returns one reward and one terminal flag per agent, with agents arriving or crashing one before the other."""
    rng = ctx.rng
    for k in range(n):
        env = gym.make("intersection-multi-agent-v1")
        u = env.unwrapped
        u.configure({"initial_vehicle_count": int(rng.randint(1, 4)), "controlled_vehicles": int(rng.randint(2, 4)), "spawn_probability": 0})
        env.seed(int(rng.randint(1 << 30)))
        env.reset()
        with ctx.guard(dict(k=k)):
            for w in u.controlled_vehicles:
                if rng.rand() < .5:
                    idxs = [i for i in W.all_indexes(u.road.network) if i[1].startswith("o") and i[0].startswith("il")]
                    idx = idxs[rng.randint(len(idxs))]
                    C23.place(w, W.lane_of(u.road.network, idx), idx, 25 + float(rng.uniform(-12, 5)), 0, 9.)
            for _ in range(4):
                a = tuple(int(rng.randint(3)) for _ in u.controlled_vehicles)
                _, rew, done, info = env.step(a)
                ctx.count("tuple_steps")
                ctx.count("tuple_mixed", int(len(set(map(bool, info["agents_dones"]))) > 1))
                ctx.ok(isinstance(rew, tuple) and isinstance(done, tuple) and tuple(rew) == tuple(info["agents_rewards"]) and tuple(done) == tuple(info["agents_dones"]),
                       "tuple-agents", "rewards %s and flags %s differ from the reported per-agent ones %s %s" % (rew, done, info["agents_rewards"], info["agents_dones"]))
                ctx.ok(len(done) == len(u.controlled_vehicles), "tuple-agents", "not one flag per agent")
                ctx.seen("tuple", k, rew, done)
                if np.all(done):
                    break
        env.close()


def long_limits(ctx):
    """The longer published step limits, reached with idle agents."""
    for name in ("lane-keeping-v0", "summon-v0", "parking-v0", "two-way-v0"):
        for k in range(2):
            with ctx.guard(dict(id=name)):
                env = gym.make(name)
                if name == "summon-v0":
                    env.unwrapped.configure({"vehicles_count": 0})
                env.seed(int(ctx.rng.randint(1 << 30)))
                env.reset()
                want = LIMITS[name] or env.unwrapped.config["duration"]
                t, done = 0, False
                while not done and t <= want:
                    _, _, done, _ = env.step(1 if name == "two-way-v0" else np.zeros(env.action_space.shape))
                    t += 1
                ctx.seen(name, t)
                early = env.unwrapped.vehicle.crashed
                ctx.ok(t == want or early, "step-limit", "%s ended after %d steps, %d published" % (name, t, want))
                ctx.count("limit_reached", t == want)


def units(tier):
    quick = {"highway": 80, "merge": 70, "roundabout": 40, "intersection": 36, "multi-intersection": 30, "parking": 80, "summon": 50, "two-way": 60,
             "lane-keeping": 10}
    return [("%s-%d" % (n, k), unit, dict(name=n, quick=q)) for n, q in quick.items() for k in range(2)] + \
        [("registered", registered, {}), ("tuple-agents", tuple_agents, dict(n=25)), ("long-limits", long_limits, {})]
