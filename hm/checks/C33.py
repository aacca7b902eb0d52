"""Lane keeping: what the observation says against the vehicle's true lateral state at that instant."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import BicycleVehicle

RULE = ("lane-keeping episodes with random and extreme steering, random noise amplitudes (zero, tiny, default, large, one of the two zero), random frequencies and attribute lists (every subset and order, other "
        "environment attributes too), manual control, vehicles relocated anywhere on and off both lanes with random speed, heading, lateral speed and yaw rate, a second reset; a case is one observation; distinct by state and noise")
REQUIRED = {"observations": 2500, "state": 2500, "derivative": 2500, "reference": 2000, "exact_state": 500, "exact_derivative": 500, "noisy_state": 900, "noisy_derivative": 900, "residuals": 8000,
            "lane_switches": 20, "on_second_lane": 500, "stored": 1500, "subsets": 40, "other_attributes": 40, "manual": 150, "resets": 60, "spreads": 40, "independent": 40, "relocated": 400, "low_speed": 60, "long": 800}
LAT = [1, 2, 4, 5]
ATTRS = ["state", "derivative", "reference_state"]
OTHERS = ["time", "steps", "done", "vehicle", "road", "lane", "dynamics", "config"]


def true_state(v):
    """Lateral state from the vehicle's own fields: lateral position, heading, lateral speed, yaw rate."""
    return np.array([float(np.squeeze(x)) for x in (v.position[1], v.heading, v.lateral_speed, v.yaw_rate)])[:, None]


def true_derivative(v, steering):
    """Rajamani's bicycle with linear tyres and slip, from the vehicle's fields and the steering really commanded."""
    s, vy, r, h = [float(np.squeeze(x)) for x in (v.speed, v.lateral_speed, v.yaw_rate, v.heading)]
    m, a, b, iz, cf, cr = v.MASS, v.LENGTH_A, v.LENGTH_B, v.INERTIA_Z, v.FRICTION_FRONT, v.FRICTION_REAR
    if abs(s) < 1:
        ff, fr = -m * vy - iz / a * r, -m * vy + iz / a * r
    else:
        ff = 2 * cf * (steering - math.atan2(vy + a * r, s))
        fr = 2 * cr * (0 - math.atan2(vy - b * r, s))
    return np.array([math.sin(h) * s + math.cos(h) * vy, r, (ff + fr) / m - r * s, (a * ff - b * fr) / iz])[:, None]


def reference(lane, v):
    s, r = W.ref_local(lane, v.position)
    return np.array([[float(v.position[1]) - r], [W.ref_heading(lane, s)], [0.], [0.]])


def lmap(x, r):
    return r[0] + (x + 1.) * (r[1] - r[0]) / 2.


class Noise:
    """Residuals of one episode (constant noise amplitude), to judge their spread and independence."""

    def __init__(self):
        self.r = {"state": [], "derivative": []}

    def judge(self, ctx, cfg):
        for k, rs in self.r.items():
            amp = cfg[k + "_noise"]
            n = len(rs)
            if amp < 1e-9 or n < 40:
                continue
            u = np.array(rs) / amp
            # n >= 40 draws, uniform on [-1, 1]: P(max < .7) = .85^40 ~ 1.5e-3 per tail and component alone, so pooled over the four components
            flat = u.ravel()
            ctx.count("spreads")
            ctx.ok(flat.max() > .85 and flat.min() < -.85, "noise-range:" + k, "the noise does not fill its range [-%.3g, %.3g]: observed [%.3g, %.3g]" % (amp, amp, flat.min() * amp, flat.max() * amp))
            ctx.ok(abs(flat.mean()) < 6 * .58 / math.sqrt(len(flat)), "noise-mean:" + k, "the noise is biased: mean %.3g of amplitude %.3g over %d draws" % (flat.mean() * amp, amp, len(flat)))
            ctx.ok(.25 < np.mean(np.abs(flat) < .5) < .75, "noise-shape:" + k, "the noise is not spread over its range: %.2f of it within half" % np.mean(np.abs(flat) < .5))
            ctx.count("independent")
            for i in range(4):
                ctx.ok(np.ptp(u[:, i]) > .3, "noise-constant:" + k, "component %d of the noise does not vary over %d draws" % (i, n))
                for j in range(i):
                    ctx.ok(abs(np.corrcoef(u[:, i], u[:, j])[0, 1]) < .9, "noise-correlated:" + k, "components %d and %d of the noise go together" % (j, i))
        if all(len(rs) >= 40 for rs in self.r.values()) and cfg["state_noise"] > 1e-9 and cfg["derivative_noise"] > 1e-9:
            n = min(len(rs) for rs in self.r.values())
            a, b = np.array(self.r["state"][:n]).ravel(), np.array(self.r["derivative"][:n]).ravel()
            ctx.ok(abs(np.corrcoef(a, b)[0, 1]) < .8, "noise-shared", "the noises on state and derivative go together")


def look(ctx, env, obs, v, lane, steering, noise, when):
    """One observation; v is a copy of the vehicle at the instant it was taken."""
    cfg, attrs = env.config, env.config["observation"]["attributes"]
    ctx.count("observations")
    ctx.ok(isinstance(obs, dict) and set(obs) == set(attrs), "attributes", "%s: observed %s instead of %s" % (when, list(obs) if isinstance(obs, dict) else obs, attrs))
    for k, want in (("state", true_state(v)), ("derivative", true_derivative(v, steering))):
        if k not in obs:
            continue
        got, amp = np.asarray(obs[k], dtype=float), float(cfg[k + "_noise"])
        if not ctx.ok(got.shape == (4, 1), "shape:" + k, "%s: %s has shape %s" % (when, k, got.shape)):
            continue
        res = got - want
        tol = 1e-6 * (1 + np.abs(want))
        ctx.count(k)
        ctx.count(("exact_" if amp == 0 else "noisy_") + k)
        ctx.count("residuals", 4)
        ctx.ok(bool(np.all(np.abs(res) <= amp + tol)), "%s" % k, "%s: observed %s is not the true one within %.3g" % (when, k, amp), got=got, expected=want)
        if amp > 1e-9:
            noise.r[k].append(res.ravel())
    if "reference_state" in obs:
        ctx.count("reference")
        ctx.close(obs["reference_state"], reference(lane, v), "reference_state", "%s: reference on the current lane" % when)
    for k in obs:
        if k in ATTRS:
            continue
        ctx.count("other_attributes")
        if k in ("vehicle", "dynamics"):
            ctx.ok(obs[k] is env.vehicle, "attribute:" + k, "not the environment's own")
        elif k == "road":
            ctx.ok(obs[k] is env.road, "attribute:road", "not the environment's own")
        elif k == "lane":
            ctx.ok(obs[k] is lane, "attribute:lane", "not the current lane")
        elif k == "config":
            ctx.ok(obs[k] is env.config, "attribute:config", "not the environment's own")
    ctx.seen(true_state(v), float(v.speed), cfg["state_noise"], cfg["derivative_noise"], steering)


def amplitudes(rng):
    def one():
        return float(rng.choice([0., 1e-3, .05, .05, 1., float(rng.uniform(.01, .5))]))
    k = rng.randint(4)
    return (0., 0.) if k == 0 else (0., one()) if k == 1 else (one(), one())


def config(rng):
    ns, nd = amplitudes(rng)
    c = dict(state_noise=ns, derivative_noise=nd)
    f = int(rng.choice([5, 10, 10, 20]))
    c.update(simulation_frequency=f, policy_frequency=int(rng.choice([f, max(f // 2, 1), 5])))
    if rng.rand() < .3:
        attrs = [ATTRS[i] for i in rng.permutation(3)[:rng.randint(1, 4)]]
        if rng.rand() < .5:
            attrs += [OTHERS[i] for i in rng.permutation(len(OTHERS))[:3]]
        c["observation"] = {"type": "AttributesObservation", "attributes": attrs}
    if rng.rand() < .3:
        a, b = float(rng.uniform(-1, 0)), float(rng.uniform(.1, 1))
        c["action"] = {"type": "ContinuousAction", "steering_range": [a, b], "longitudinal": False, "lateral": True, "dynamical": True}
    if rng.rand() < .12:
        c["manual_control"] = True
    return c


def relocate(rng, env, lanes):
    v = env.vehicle
    lane = lanes[rng.randint(len(lanes))]
    v.position = np.array(W.ref_position(lane, rng.uniform(-10, W.ref_length(lane) + 10), rng.uniform(-7, 7)), dtype=float)
    v.heading = float(W.ref_heading(lane, 0)) + float(rng.uniform(-.6, .6)) if rng.rand() < .8 else float(rng.uniform(-7, 7))
    v.speed = float(rng.choice([8.3, 12., 3., .5, 0., -4.]))
    v.lateral_speed, v.yaw_rate = float(rng.uniform(-2, 2)), float(rng.uniform(-1, 1))
    v.on_state_update()


def episode(ctx, seed, steps):
    rng = np.random.RandomState(seed)
    c = config(rng)
    with ctx.guard(dict(seed=seed, config=c)):
        env = W.make("lane-keeping", c, seed=int(rng.randint(1 << 30)))
        cfg = env.config
        steer_range = cfg["action"]["steering_range"]
        manual = bool(cfg["manual_control"])
        if "observation" in c:
            ctx.count("subsets")
        noise = Noise()
        try:
            for round_ in range(2):
                obs = env._hm_first_obs if round_ == 0 else env.reset()
                ctx.count("resets")
                lanes = [W.lane_of(env.road.network, ("c", "d", 0)), W.lane_of(env.road.network, ("a", "b", 0))]
                both = list(lanes)
                lane = lanes.pop(0)
                v = env.vehicle
                ctx.ok(type(v) is BicycleVehicle and list(env.road.vehicles) == [v] and env.dynamics is v, "vehicle", "the vehicle is not the dynamical one alone on its road")
                ctx.close(v.position, W.ref_position(lane, 50, -4), "start", "start position")
                ctx.close(v.heading, W.ref_heading(lane, 0), "start", "start heading")
                look(ctx, env, obs, v, lane, 0., noise, "after reset")
                if round_ == 0:
                    ctx.ok(len(env.trajectory) == 0, "stored", "states stored before any step")
                past = [np.array(x, dtype=float) for x in env.trajectory]
                steering = 0.
                roam = rng.rand() < .5
                hold = float(rng.uniform(-1, 1))
                for t in range(steps if round_ == 0 else steps // 4):
                    with ctx.guard(dict(seed=seed, config=c, round=round_, step=t)):
                        if roam and rng.rand() < .5:
                            relocate(rng, env, both)
                            ctx.count("relocated")
                        on, margin = W.ref_on_lane(lane, v.position)
                        if margin < 1e-6:
                            break
                        if lanes and not on:
                            lane = lanes.pop(0)
                            ctx.count("lane_switches")
                        ctx.count("on_second_lane", int(not lanes))
                        ctx.count("low_speed", int(abs(float(v.speed)) < 1))
                        if rng.rand() < .2:
                            hold = float(rng.choice([-1., 1., 0., rng.uniform(-1, 1), rng.uniform(-1, 1)]))
                        a = np.array([hold])
                        if not manual:
                            steering = lmap(float(np.clip(hold, -1, 1)), steer_range)
                        else:
                            ctx.count("manual")
                            v.action = {"steering": float(rng.uniform(-.5, .5)), "acceleration": 0.}
                            steering = v.action["steering"]
                        past.append(np.array([[float(v.position[0])], [float(v.position[1])], [float(v.heading)], [float(v.speed)], [float(np.squeeze(v.lateral_speed))], [float(np.squeeze(v.yaw_rate))]]))
                        shadow = copy.copy(v)
                        shadow.position = np.array(v.position, dtype=float)
                        t0 = env.time
                        obs, rew, done, info = env.step(a)
                        ctx.ok(not done, "terminal", "lane keeping never ends by itself")
                        ctx.ok(env.lane is lane, "lane", "the current lane is not the one the vehicle was on (or the next one once it left)")
                        frames = int(cfg["simulation_frequency"] // cfg["policy_frequency"])
                        ctx.ok(env.time - t0 == frames, "frames", "%d frames in a step instead of %d" % (env.time - t0, frames))
                        look(ctx, env, obs, shadow, lane, steering, noise, "at step %d" % t)
                        ctx.count("stored")
                        ctx.count("long", int(t >= 200))
                        ctx.ok(len(env.trajectory) == len(past), "stored", "%d states stored in %d steps" % (len(env.trajectory), len(past)))
                        ctx.close(env.trajectory[-1], past[-1], "stored", "the stored state is not the one before the step")
                ctx.ok(len(env.trajectory) == len(past) and all(np.shape(x) == np.shape(y) and np.allclose(x, y) for x, y in zip(env.trajectory, past)), "stored", "states stored earlier changed")
            noise.judge(ctx, cfg)
            ctx.sample(seed=seed, config=c, steps=steps)
        finally:
            env.close()


def unit(ctx, n, steps):
    for _ in range(n):
        if ctx.out_of_time():
            return
        episode(ctx, int(ctx.rng.randint(1 << 30)), steps)


def units(tier):
    k = 12 if tier == "thorough" else 1
    return [("episodes-%d" % i, unit, dict(n=20 * k, steps=60)) for i in range(8)] + [("long-%d" % i, unit, dict(n=2 * k, steps=450)) for i in range(2)]
