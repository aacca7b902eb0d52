"""Time-to-collision grids, observations and finite MDPs against constant-speed predictions recomputed from raw states."""
import copy
import math
import sys
import types

import numpy as np

from hm import world as W
from hm.checks.C05 import scramble
from hm.checks.C14 import ref_connected
from hm.world import MDPVehicle, IDMVehicle, ControlledVehicle
from highway_env.envs.common.finite_mdp import compute_ttc_grid, finite_mdp

RULE = ("environments with random speeds, horizons, frequencies and traffic (after resets, steps and random scrambling, including oncoming, equal-speed, overlapping and off-route vehicles), single and multi-agent; a case is "
        "one grid or window or MDP; distinct by content; scenes with a time to collision within 1e-6 of a bin border, or where a relative speed below 0.011 could matter, are skipped")
REQUIRED = {"other_lengths": 60, "grids": 800, "marked_cells": 4000, "centre_cells": 1000, "empty_cells": 50000, "windows": 800, "outside_lane": 300, "lowest_speed": 50, "highest_speed": 50, "other_observer": 60,
            "equal_speed": 30, "oncoming": 60, "all_lanes": 60, "off_route": 60, "mdps": 60, "mdp_speed_moves": 400, "mdp_terminal": 100, "restricted_actions": 9}


def speeds_of(v):
    n = v.SPEED_COUNT
    return [v.SPEED_MIN + i * (v.SPEED_MAX - v.SPEED_MIN) / (n - 1) if n > 1 else v.SPEED_MIN for i in range(n)]


def ref_grid(ctx, env, v, bins, tq):
    """the expected grid, or None when a decision is marginal"""
    net = env.road.network
    f, t, _ = v.lane_index
    lanes = len(net.graph[f][t])
    lane = W.lane_of(net, v.lane_index)
    s0 = W.ref_local(lane, v.position)[0]
    h0 = float(np.squeeze(v.heading))
    grid = np.zeros((v.SPEED_COUNT, lanes, bins))
    for o in env.road.vehicles:
        if o is v:
            continue
        sp = float(np.squeeze(o.speed))
        proj = sp * math.cos(float(np.squeeze(o.heading)) - h0)
        gap = W.ref_local(lane, o.position)[0] - s0
        if W.lane_kind(lane) == "circular" and abs(abs(W.ref_local(lane, o.position)[0] / lane.radius) - math.pi) < 1e-3:
            return None
        if not ref_connected(net, v.lane_index, o.lane_index, v.route, False, 3):
            ctx.count("off_route")
            continue
        n_o = len(net.graph[o.lane_index[0]][o.lane_index[1]])
        ids = [o.lane_index[2]] if n_o == lanes else list(range(lanes))
        ctx.count("all_lanes", int(n_o != lanes))
        margin = (o.LENGTH + v.LENGTH) / 2
        for k, ego in enumerate(speeds_of(v)):
            rel = ego - proj
            if abs(rel) < 0.011:  # never gets there within the horizon
                if min(abs(gap + m) for m in (0, margin, -margin)) < 0.011 * bins * tq + .05:
                    return None
                ctx.count("equal_speed")
                continue
            ctx.count("oncoming", int(proj < -1))
            for m, cost in ((0, 1.), (-margin, .5), (margin, .5)):
                ttc = (gap + m) / rel
                q = ttc / tq
                if abs(ttc) < 1e-9 or (q > -1e-6 and abs(q - round(q)) < 1e-6):
                    return None
                if ttc < 0:
                    continue
                for b in (math.floor(q), math.ceil(q)):
                    if b < bins:
                        for i in ids:
                            grid[k, i, b] = max(grid[k, i, b], cost)
    return grid


def ref_window(ctx, grid, v):
    lanes, n = grid.shape[1], grid.shape[0]
    out = np.ones((3, 3, grid.shape[2]))
    k0 = v.speed_index
    ctx.count("lowest_speed", int(k0 == 0))
    ctx.count("highest_speed", int(k0 == n - 1))
    for a in range(3):
        k = min(max(k0 - 1 + a, 0), n - 1)
        for b in range(3):
            i = v.lane_index[2] - 1 + b
            if 0 <= i < lanes:
                out[a, b] = grid[k, i]
            else:
                ctx.count("outside_lane")
    return out


def check_grid(ctx, env, v, horizon, freq, call):
    bins, tq = horizon * freq, 1. / freq
    exp = ref_grid(ctx, env, v, bins, tq)
    if exp is None:
        ctx.count("marginal")
        return None
    got = np.asarray(call(tq, horizon), dtype=float)
    ctx.count("grids")
    ctx.seen(got)
    if not ctx.ok(got.shape == exp.shape, "shape", "grid of shape %s instead of %s" % (got.shape, exp.shape)):
        return None
    ctx.count("marked_cells", int((exp > 0).sum()))
    ctx.count("centre_cells", int((exp == 1).sum()))
    ctx.count("empty_cells", int((exp == 0).sum()))
    bad = np.argwhere(np.abs(got - exp) > 1e-9)
    ctx.ok(len(bad) == 0, "grid", "cell %s holds %s instead of %s" % (bad[0] if len(bad) else "", got[tuple(bad[0])] if len(bad) else "", exp[tuple(bad[0])] if len(bad) else ""),
           observer=W.vstate(v), vehicles=[W.vstate(o) for o in env.road.vehicles][:12])
    return exp


def check_window(ctx, env, ot, v, horizon, freq, obs):
    ctx.ok(ot.observer_vehicle is v, "observer", "the observer is not the intended vehicle")
    exp = ref_grid(ctx, env, v, horizon * freq, 1. / freq)
    if exp is None:
        return
    exp = ref_window(ctx, exp, v)
    ctx.count("windows")
    got = np.asarray(obs, dtype=float)
    if ctx.ok(got.shape == exp.shape, "window-shape", "observation of shape %s instead of %s" % (got.shape, exp.shape)):
        bad = np.argwhere(np.abs(got - exp) > 1e-9)
        ctx.ok(len(bad) == 0, "window", "(speed, lane, time) %s holds %s instead of %s" % ((bad[0], got[tuple(bad[0])], exp[tuple(bad[0])]) if len(bad) else ("", "", "")),
               lane=v.lane_index, speed_index=v.speed_index)


def rearrange(rng, env, ctx):
    """random traffic, with oncoming, equal-speed, touching and off-route vehicles and a moved observer"""
    scramble(rng, env)
    ego = env.vehicle
    net = env.road.network
    idx = W.all_indexes(net)
    if rng.rand() < .5:
        i = idx[rng.randint(len(idx))]
        lane = W.lane_of(net, i)
        s = float(rng.uniform(0, min(W.ref_length(lane), 300)))
        ego.position = W.ref_position(lane, s, float(rng.uniform(-1, 1)))
        ego.heading = W.ref_heading(lane, s) + float(rng.uniform(-.2, .2))
        ego.on_state_update()
    for v in env.road.vehicles:
        if v is ego:
            continue
        k = rng.randint(6)
        if rng.rand() < .2:
            v.LENGTH = float(rng.uniform(2, 14))
            ctx.count("other_lengths")
        if k == 0:
            v.speed = speeds_of(ego)[rng.randint(ego.SPEED_COUNT)]
            v.heading = ego.heading + (math.pi if rng.rand() < .5 else 0.)
        elif k == 1:
            v.position = np.asarray(ego.position, dtype=float) + rng.uniform(-4, 4, size=2)
            v.on_state_update()
        elif k <= 3:
            i = idx[rng.randint(len(idx))]
            lane = W.lane_of(net, i)
            s = float(rng.uniform(0, min(W.ref_length(lane), 400)))
            v.position = W.ref_position(lane, s, 0.)
            v.heading = W.ref_heading(lane, s)
            v.on_state_update()
    if hasattr(ego, "speed_index"):
        ego.speed_index = int(rng.randint(ego.SPEED_COUNT))


def grids(ctx, name, count, multi=False):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        horizon, freq = int(rng.randint(1, 12)), int(rng.choice([1, 1, 2, 4, 5]))
        oc = {"type": "TimeToCollision", "horizon": horizon}
        cfg = {"policy_frequency": freq, "simulation_frequency": 20, "observation": oc}
        if multi:
            k = int(rng.randint(2, 4))
            cfg.update({"controlled_vehicles": k, "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction", "lateral": name == "highway"}},
                        "observation": {"type": "MultiAgentObservation", "observation_config": oc}})
        if name == "highway":
            cfg.update(lanes_count=int(rng.randint(1, 6)), vehicles_count=int(rng.randint(0, 9)))
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed)
            if name != "intersection" and rng.rand() < .5:
                for v in env.controlled_vehicles:
                    v.SPEED_MIN, v.SPEED_MAX, v.SPEED_COUNT = float(rng.choice([0, 10, 20])), float(rng.choice([22, 30, 40])), int(rng.randint(2, 7))
                    v.speed_index = v.speed_to_index(v.target_speed)
                    v.target_speed = v.index_to_speed(v.speed_index)
            pol = W.Policy(rng)
            for t in range(5):
                if t:
                    if rng.rand() < .4:
                        env.step(pol(env.action_space))
                    else:
                        rearrange(rng, env, ctx)
                ots = env.observation_type.agents_observation_types if multi else [env.observation_type]
                obs = env.observation_type.observe()
                for a, v in enumerate(env.controlled_vehicles):
                    check_grid(ctx, env, v, horizon, freq, (lambda tq, h: compute_ttc_grid(env, tq, h)) if a == 0 and t % 2 else (lambda tq, h: compute_ttc_grid(env, tq, h, vehicle=v)))
                    check_window(ctx, env, ots[a], v, horizon, freq, obs[a] if multi else obs)
                    ctx.count("other_observer", int(a > 0))
                if not multi and t == 2:  # a discrete-speed vehicle elsewhere on the road, as observer
                    idx = W.all_indexes(env.road.network)
                    i = idx[rng.randint(len(idx))]
                    lane = W.lane_of(env.road.network, i)
                    o = MDPVehicle.make_on_lane(env.road, i, float(rng.uniform(0, min(100, W.ref_length(lane)))), float(rng.uniform(15, 30)))
                    env.road.vehicles.append(o)
                    ctx.count("other_observer")
                    check_grid(ctx, env, o, horizon, freq, lambda tq, h: compute_ttc_grid(env, tq, h, vehicle=o))
                    env.road.vehicles.remove(o)
            if e == 0:
                ctx.sample(env=name, config=cfg, window=obs)


class Recorder:
    pass


def stub():
    mod = types.ModuleType("finite_mdp.mdp")

    class DeterministicMDP:
        def __init__(self, transition, reward, terminal=None, state=0):
            self.transition, self.reward, self.terminal, self.state = transition, reward, terminal, state

    mod.DeterministicMDP = DeterministicMDP
    pkg = types.ModuleType("finite_mdp")
    pkg.mdp = mod
    sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = pkg, mod


def mdps(ctx, count):
    rng = ctx.rng
    stub()
    for e in range(count):
        freq = int(rng.choice([1, 2, 5]))
        cfg = {"policy_frequency": freq, "lanes_count": int(rng.randint(1, 6)), "vehicles_count": int(rng.randint(0, 9)), "collision_reward": float(rng.choice([-1, -3.5])),
               "action": {"type": "DiscreteMetaAction"}}
        k = rng.randint(5)
        if k < 2:
            cfg["action"]["lateral" if k else "longitudinal"] = False
            ctx.count("restricted_actions")
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env="highway", seed=seed, config=cfg)):
            env = W.make("highway", cfg, seed)
            env.LANE_CHANGE_REWARD, env.RIGHT_LANE_REWARD, env.HIGH_SPEED_REWARD = float(rng.uniform(-1, 0)), float(rng.uniform(0, 1)), float(rng.uniform(0, 1))
            if rng.rand() < .5:
                env.vehicle.SPEED_COUNT = int(rng.randint(2, 6))
            for _ in range(2):
                rearrange(rng, env, ctx)
                if rng.rand() < .5:
                    horizon = 10
                    mdp = env.to_finite_mdp()
                else:
                    horizon = int(rng.randint(1, 9))
                    mdp = finite_mdp(env, 1. / freq, horizon)
                grid = ref_grid(ctx, env, env.vehicle, horizon * freq, 1. / freq)
                if grid is None:
                    continue
                ctx.count("mdps")
                V, L, T = grid.shape
                labels = [env.action_type.actions[a] for a in range(env.action_space.n)]
                n, m = V * L * T, len(labels)
                tr, rw, te = np.asarray(mdp.transition), np.asarray(mdp.reward, dtype=float), np.asarray(mdp.terminal)
                if not ctx.ok(tr.shape == (n, m) and rw.shape == (n, m) and te.shape == (n,), "mdp-shape", "transition %s reward %s terminal %s, expected %s" % (tr.shape, rw.shape, te.shape, (n, m))):
                    continue
                at = lambda v, l, t: (v * L + l) * T + t
                ctx.ok(int(mdp.state) == at(env.vehicle.speed_index, env.vehicle.lane_index[2], 0), "mdp-state", "initial state %s" % mdp.state)
                ctx.seen(tr, rw)
                for v in range(V):
                    for l in range(L):
                        for t in range(T):
                            s = at(v, l, t)
                            end = bool(grid[v, l, t] == 1 or t == T - 1)
                            ctx.count("mdp_terminal", int(end))
                            if not ctx.ok(bool(te[s]) == end, "mdp-terminal", "state %s terminal %s" % ((v, l, t), te[s])):
                                break
                            base = cfg["collision_reward"] * grid[v, l, t] + env.RIGHT_LANE_REWARD * l / max(L - 1, 1) + env.HIGH_SPEED_REWARD * v / max(V - 1, 1)
                            for a, label in enumerate(labels):
                                v2, l2 = v, l
                                if label == "LANE_LEFT":
                                    l2 = max(l - 1, 0)
                                elif label == "LANE_RIGHT":
                                    l2 = min(l + 1, L - 1)
                                elif label in ("FASTER", "SLOWER") and t == 0:
                                    v2 = min(v + 1, V - 1) if label == "FASTER" else max(v - 1, 0)
                                    ctx.count("mdp_speed_moves")
                                to = at(v2, l2, min(t + 1, T - 1))
                                r = base + (env.LANE_CHANGE_REWARD if label.startswith("LANE") else 0)
                                if int(tr[s, a]) != to:
                                    ctx.fail("mdp-transition", "%s from %s leads to %s instead of %s" % (label, (v, l, t), np.unravel_index(int(tr[s, a]), grid.shape), (v2, l2, min(t + 1, T - 1))))
                                    return
                                if abs(rw[s, a] - r) > 1e-9:
                                    ctx.fail("mdp-reward", "%s in %s is rewarded %s instead of %s" % (label, (v, l, t), rw[s, a], r))
                                    return


def units(tier):
    k = 10 if tier == "thorough" else 1
    out = []
    for i in range(k):
        out += [("highway-%d-%d" % (i, j), grids, dict(name="highway", count=40)) for j in range(2)]
        out += [("highway-multi-%d" % i, grids, dict(name="highway", count=20, multi=True)), ("multi-intersection-%d" % i, grids, dict(name="multi-intersection", count=12, multi=True)),
                ("merge-%d" % i, grids, dict(name="merge", count=40)), ("roundabout-%d" % i, grids, dict(name="roundabout", count=40)), ("intersection-%d" % i, grids, dict(name="intersection", count=20)),
                ("two-way-%d" % i, grids, dict(name="two-way", count=50)), ("mdp-%d" % i, mdps, dict(count=60))]
    return out
