"""Dynamical bicycle model: derivative, integration and linearisations against an independent model."""
import copy
import math

import numpy as np

from hm import world as W
from hm.world import BicycleVehicle

RULE = ("dynamical vehicles with random states, mass distributions and frictions driving forward at 1 to 15 m/s under held and changing "
        "commands (including saturated ones), slow vehicles coasting, and parking/lane-keeping episodes driven by dynamical vehicles; a "
        "case is one derivative, step or linearisation at one state; distinct by state, command and parameters")
REQUIRED = {"derivatives": 5000, "steps": 5000, "linearisations": 2000, "full_matrices": 1000, "damping": 50, "episode_steps": 500,
            "saturated_steering": 100, "saturated_yaw": 50}
ASSUMPTIONS = ["driving forward at 1 m/s or more (the published model has no reverse regime); below 1 m/s only damping is checked"]


def variant(rng):
    k = rng.randint(3)
    if k == 0:
        return BicycleVehicle

    class Variant(BicycleVehicle):
        MASS = float(rng.uniform(.5, 3))
        LENGTH_A = float(rng.uniform(1.5, 3.5))
        LENGTH_B = float(rng.uniform(1.5, 3.5))
        INERTIA_Z = float(rng.uniform(1, 8))
        FRICTION_FRONT = float(rng.uniform(3, 30))
        FRICTION_REAR = float(rng.uniform(3, 30))
    return Variant


def ref_derivative(v, x, y, h, s, lat, yaw, steering, acc):
    tf = math.atan2(lat + v.LENGTH_A * yaw, s)
    tr = math.atan2(lat - v.LENGTH_B * yaw, s)
    ff = 2 * v.FRICTION_FRONT * (steering - tf)
    fr = 2 * v.FRICTION_REAR * (0 - tr)
    return np.array([s * math.cos(h) - lat * math.sin(h), s * math.sin(h) + lat * math.cos(h), yaw, acc,
                     (ff + fr) / v.MASS - yaw * s, (v.LENGTH_A * ff - v.LENGTH_B * fr) / v.INERTIA_Z])


def state_of(v):
    return [float(np.squeeze(z)) for z in (v.position[0], v.position[1], v.heading, v.speed, v.lateral_speed, v.yaw_rate)]


def random_vehicle(rng, cls, lo=1.05, hi=15., lat=2., yaw=1.5):
    v = cls(None, rng.uniform(-50, 50, size=2), float(rng.uniform(-4, 4)), float(rng.uniform(lo, hi)))
    v.lateral_speed = float(rng.uniform(-lat, lat))
    v.yaw_rate = float(rng.uniform(-yaw, yaw))
    return v


def derivatives(ctx, count):
    rng = ctx.rng
    for k in range(count):
        v = random_vehicle(rng, variant(rng))
        d, a = float(rng.uniform(-1.2, 1.2)), float(rng.uniform(-5, 5))
        v.act({"steering": d, "acceleration": a})
        with ctx.guard(dict(v=W.vstate(v), steering=d, acceleration=a)):
            st = state_of(v)
            ctx.close(np.squeeze(v.state), st, "state", "state vector")
            got = np.asarray(v.derivative, dtype=float).reshape(-1)
            ctx.close(got, ref_derivative(v, *st, d, a), "derivative", "derivative", tol=1e-9, rtol=1e-9, state=st)
            ctx.close(state_of(v), st, "derivative-side-effect", "computing the derivative changed the state")
            ctx.count("derivatives")
            ctx.seen(st, d, a, v.MASS, v.LENGTH_A, v.FRICTION_FRONT)
            if k < 2:
                ctx.sample(state=st, derivative=got)


def jac(f, z, eps=1e-6):
    z = np.array(z, dtype=float)
    cols = []
    for i in range(len(z)):
        e = np.zeros(len(z))
        e[i] = eps
        cols.append((f(z + e) - f(z - e)) / (2 * eps))
    return np.array(cols).T


def linear(ctx, count):
    rng = ctx.rng
    for k in range(count):
        v = random_vehicle(rng, variant(rng), lat=0.5, yaw=0.5)
        s = float(v.speed)
        d, a = float(rng.uniform(-.3, .3)), float(rng.uniform(-5, 5))
        with ctx.guard(dict(v=W.vstate(v), steering=d, acceleration=a, params=[v.MASS, v.LENGTH_A, v.LENGTH_B, v.INERTIA_Z, v.FRICTION_FRONT, v.FRICTION_REAR])):
            # Jacobian of the published derivative around straight driving along x at the current speed
            full = jac(lambda z: ref_derivative(v, 0., z[0], z[1], s, z[2], z[3], z[4], 0.)[[1, 2, 4, 5]], np.zeros(5))
            # the linearised derivative is the one at the current speed, whatever was computed before
            u = type(v)(None, [0., 0.], 0., s * float(rng.uniform(1.1, 2)))
            for attr in ("position", "heading", "speed", "lateral_speed", "yaw_rate"):
                setattr(u, attr, getattr(v, attr))
            u.act({"steering": d, "acceleration": a})
            ctx.close(np.asarray(u.derivative_linear, dtype=float).reshape(-1)[:4], np.asarray(v.derivative, dtype=float).reshape(-1)[:4] * [1, 1, 1, 0] + [0, 0, 0, a],
                      "derivative-linear", "kinematic rows of the linearised derivative", tol=1e-9)
            v, u = u, v
            v.act({"steering": d, "acceleration": a})
            first = np.asarray(v.derivative_linear, dtype=float).reshape(-1)
            st = state_of(v)
            exp = ref_derivative(v, *st, d, a)
            exp[4:] = full[2:, 2:4] @ np.array(st[4:]) + full[2:, 4] * d
            ctx.close(first, exp, "derivative-linear", "linearised derivative", tol=1e-4, rtol=1e-5, state=st, steering=d)
            A, B = v.full_lateral_lpv_dynamics()
            ctx.close(np.asarray(A, dtype=float), full[:, :4], "full-A", "full lateral A", tol=1e-4, rtol=1e-5, speed=s)
            ctx.close(np.asarray(B, dtype=float).reshape(4), full[:, 4], "full-B", "full lateral B", tol=1e-4, rtol=1e-5, speed=s)
            ctx.count("full_matrices")
            A2, B2 = v.lateral_lpv_dynamics()
            ctx.close(np.asarray(A2, dtype=float), full[2:, 2:4], "lateral-A", "lateral A", tol=1e-4, rtol=1e-5, speed=s)
            ctx.close(np.asarray(B2, dtype=float).reshape(2), full[2:, 4], "lateral-B", "lateral B", tol=1e-4, rtol=1e-5, speed=s)
            for name, n, rows, cols in (("lateral_lpv_structure", 2, slice(2, 4), slice(2, 4)), ("full_lateral_lpv_structure", 4, slice(0, 4), slice(0, 4))):
                A0, phi, B0 = getattr(v, name)()
                th = np.array([v.FRICTION_FRONT, v.FRICTION_REAR])
                ctx.close(np.asarray(A0, dtype=float) + th[0] * np.asarray(phi[0], dtype=float) + th[1] * np.asarray(phi[1], dtype=float),
                          full[rows, cols], "structure-A", name, tol=1e-4, rtol=1e-5, speed=s)
                ctx.close(np.asarray(B0, dtype=float).reshape(n), full[rows, 4], "structure-B", name, tol=1e-4, rtol=1e-5, speed=s)
                # the same structure describes any friction
                w = copy.copy(v)
                w.FRICTION_FRONT, w.FRICTION_REAR = float(rng.uniform(3, 30)), float(rng.uniform(3, 30))
                fw = jac(lambda z: ref_derivative(w, 0., z[0], z[1], s, z[2], z[3], z[4], 0.)[[1, 2, 4, 5]], np.zeros(5))
                ctx.close(np.asarray(A0, dtype=float) + w.FRICTION_FRONT * np.asarray(phi[0], dtype=float) + w.FRICTION_REAR * np.asarray(phi[1], dtype=float),
                          fw[rows, cols], "structure-affine", name + " is not affine in the frictions", tol=1e-4, rtol=1e-5, speed=s)
            # the kinematic rows hold at any forward speed
            w = copy.copy(v)
            w.speed = float(rng.uniform(.05, 2))
            A3 = np.asarray(w.full_lateral_lpv_dynamics()[0], dtype=float)
            ctx.close(A3[:2], [[0, w.speed, 1, 0], [0, 0, 0, 1]], "full-A", "kinematic rows of the full lateral A", speed=w.speed)
            # linear derivative: exact kinematics of position, heading and speed; linearised lateral rows
            v.act({"steering": d, "acceleration": a})
            got = np.asarray(v.derivative_linear, dtype=float).reshape(-1)
            st = state_of(v)
            exp = ref_derivative(v, *st, d, a)
            exp[4:] = full[2:, 2:4] @ np.array(st[4:]) + full[2:, 4] * d
            ctx.close(got, exp, "derivative-linear", "linearised derivative", tol=1e-4, rtol=1e-5, state=st, steering=d)
            # tangency: the true derivative differs from the linear one by a higher-order term
            eps = 1e-3
            v.lateral_speed, v.yaw_rate = st[4] * eps, st[5] * eps
            v.act({"steering": d * eps, "acceleration": a})
            g1 = np.asarray(v.derivative, dtype=float).reshape(-1)
            g2 = np.asarray(v.derivative_linear, dtype=float).reshape(-1)
            ctx.ok(np.abs(g1 - g2).max() < 1e-4, "tangency", "derivative %s, linear %s for a small deviation" % (g1, g2))
            ctx.count("linearisations")
            ctx.seen(s, st, d, v.MASS, v.LENGTH_A, v.LENGTH_B)


def check_step(ctx, v, st, cmd, dt, speed_ok=True, crashed=False):
    """one step from state st with command cmd (before limits)"""
    x, y, h, s, lat, yaw = st
    d, a = cmd
    if crashed:
        d, a = 0., -s
    if s > v.MAX_SPEED:
        a = min(a, v.MAX_SPEED - s)
    if abs(d) > math.pi / 2:
        ctx.count("saturated_steering")
    if abs(yaw) > v.MAX_ANGULAR_SPEED:
        ctx.count("saturated_yaw")
    d = min(max(d, -math.pi / 2), math.pi / 2)
    yaw = min(max(yaw, -v.MAX_ANGULAR_SPEED), v.MAX_ANGULAR_SPEED)
    z = np.array([x, y, h, s, lat, yaw])
    exp = z + dt * ref_derivative(v, *z, d, a)
    got = state_of(v)
    if not speed_ok:
        exp[3] = got[3]
    ctx.close(got, exp, "integration", "state after a step of %s" % dt, tol=1e-7, rtol=1e-9, before=st, command=cmd)
    ctx.count("steps")
    ctx.seen(st, cmd, dt)


def drive(ctx, count):
    rng = ctx.rng
    for k in range(count):
        cls = variant(rng)
        v = random_vehicle(rng, cls, lat=1., yaw=1. if rng.rand() < .8 else 12.)
        dt = float(rng.choice([1 / 15., 1 / 30., 1 / 60., 1 / 100.]))
        with ctx.guard(dict(k=k, start=W.vstate(v), dt=dt)):
            cmd = (0., 0.)
            for t in range(40):
                if t == 0 or rng.rand() < .3:
                    cmd = (float(rng.uniform(-.5, .5)) if rng.rand() < .9 else float(rng.uniform(-3, 3)), float(rng.uniform(-4, 5)))
                    v.act({"steering": cmd[0], "acceleration": cmd[1]})
                st = state_of(v)
                if st[3] < 1.0 or not np.all(np.isfinite(st)) or np.abs(st).max() > 1e6:
                    break
                v.step(dt)
                check_step(ctx, v, st, cmd, dt)
                cmd = (float(np.squeeze(v.action["steering"])), float(np.squeeze(v.action["acceleration"])))


def damping(ctx, count):
    rng = ctx.rng
    for k in range(count):
        v = random_vehicle(rng, BicycleVehicle, lo=-.9, hi=.9, lat=1., yaw=1.)
        v.act({"steering": float(rng.uniform(-1, 1)), "acceleration": 0.})
        l0, r0 = abs(v.lateral_speed), abs(v.yaw_rate)
        with ctx.guard(dict(start=W.vstate(v))):
            e = []
            for t in range(120):
                v.step(1 / 15.)
                e.append(math.hypot(v.lateral_speed, v.yaw_rate))
            ctx.ok(abs(v.yaw_rate) < 1e-3 + 1e-3 * r0 and abs(v.lateral_speed) < 1e-3 + 1e-2 * (l0 + r0), "no-damping",
                   "lateral speed %s -> %s and yaw rate %s -> %s after 8 s at low speed" % (l0, v.lateral_speed, r0, v.yaw_rate))
            ctx.count("damping")
            ctx.seen(l0, r0, v.speed)


def episodes(ctx, name, count, cfg):
    rng = ctx.rng
    for e in range(count):
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed)
            ctx.ok(isinstance(env.vehicle, BicycleVehicle), "dynamical-class", "the dynamical option made a %s" % type(env.vehicle).__name__)
            mem = {}

            def before(dt):
                v = env.vehicle
                mem["st"], mem["crashed"] = state_of(v), v.crashed
                mem["cmd"] = (float(np.squeeze(v.action["steering"])), float(np.squeeze(v.action["acceleration"])))

            def after(dt):
                v = env.vehicle
                if mem["st"][3] < 1.0 or not np.all(np.isfinite(mem["st"])):
                    return
                ctx.count("episode_steps")
                check_step(ctx, v, mem["st"], mem["cmd"], dt, speed_ok=v.crashed == mem["crashed"], crashed=mem["crashed"])

            if name == "lane-keeping":
                ve, st0 = env.vehicle, env.vehicle.step

                def step(dt):
                    before(dt)
                    st0(dt)
                    after(dt)
                ve.step = step
            else:
                W.tap(env.road, before_step=before, after_step=after)
            for t in range(60):
                a = rng.uniform(-1, 1, size=env.action_space.shape)
                if len(a) == 2:
                    a[0] = rng.uniform(.2, 1) if env.vehicle.speed < 6 else rng.uniform(-1, .5)
                    a[1] *= .5
                env.step(a)


def units(tier):
    k = 8 if tier == "thorough" else 1
    out = []
    for i in range(3 * k):
        out.append(("derivative-%d" % i, derivatives, dict(count=2500)))
        out.append(("linear-%d" % i, linear, dict(count=1000)))
        out.append(("drive-%d" % i, drive, dict(count=250)))
    for i in range(k):
        out.append(("damping-%d" % i, damping, dict(count=80)))
        out.append(("parking-%d" % i, episodes, dict(name="parking", count=3, cfg={"action": {"type": "ContinuousAction", "dynamical": True}})))
        out.append(("lane-keeping-%d" % i, episodes, dict(name="lane-keeping", count=3, cfg={})))
    return out
