"""Linear parameter-varying interval predictors against simulated member trajectories."""
import math

import numpy as np

from hm import world as W
from highway_env.interval import LPV

RULE = ("random uncertain linear systems (cooperative, with real eigenvalues, with complex eigenvalues; 1 to 4 states; with and without deviations, "
        "disturbances, feedback gain, offset and time-varying control), random initial intervals and admissible steps; members start on corners and inside the "
        "initial interval and follow the Euler-discretised dynamics with random, extremal and adversarial parameters and disturbances; widths of certain systems with real eigenvalues against their modes; a case is one system; "
        "distinct by the system")
REQUIRED = {"metzler": 150, "diagonalisable": 150, "complex": 40, "feedback": 100, "offset": 100, "control": 150, "disturbance": 150, "disturbance_rotated": 50,
            "interval_start": 150, "rotated_interval_start": 50, "exact_system": 60, "no_deviation": 20, "member_steps": 40000, "roundtrip": 300, "env_steps": 100,
            "one_state": 20, "offset_feedback": 60, "nearly": 60, "lists": 3000, "varying_step": 200, "many_deviations": 60, "mode_widths": 4000, "mode_widths_rotated": 1500}


def stable_step(lpv_a0, rng):
    d = float(np.abs(np.diag(lpv_a0)).max()) if len(lpv_a0) else 1.
    return float(rng.uniform(.01, min(.2, .9 / max(d, 1e-6))))


def system(rng):
    n = int(rng.randint(1, 5))
    kind = "metzler" if rng.rand() < .4 else ("diagonalisable" if rng.rand() < .8 else "complex")
    if n == 1:
        kind = "metzler"
    elif rng.rand() < .12:
        # nearly cooperative: slightly negative couplings around a cycle (complex eigenvalues, no change of coordinates)
        a = -np.diag(rng.uniform(0, .3, size=n)) if rng.rand() < .5 else np.zeros((n, n))
        e = 10 ** rng.uniform(-3, -1)
        for i in range(n):
            a[i, (i + 1) % n] = -e * rng.uniform(.8, 1.2)
        if n % 2 == 0:
            a[0, 1] *= -1
        return n, "complex", a
    if kind == "metzler":
        a = np.abs(rng.normal(size=(n, n))) * (rng.rand(n, n) < .6)
        np.fill_diagonal(a, -rng.uniform(0, 4, size=n) - a.sum(axis=1) * .5)
    elif kind == "diagonalisable":
        for _ in range(100):
            t = rng.normal(size=(n, n))
            lam = -np.sort(rng.uniform(.1, 5, size=n)) + (rng.rand() < .2) * .2
            if np.linalg.cond(t) < 30 and np.min(np.abs(np.diff(np.sort(lam)))) > .15:
                break
        a = t @ np.diag(lam) @ np.linalg.inv(t)
        off = a[~np.eye(n, dtype=bool)]
        if (off >= -1e-3).all():
            kind = "metzler?"
    else:
        a = -np.diag(rng.uniform(.5, 2, size=n))
        w = rng.uniform(.5, 3)
        a[0, 1] += w
        a[1, 0] -= w
    return n, kind, a


def adversary(rng, n):
    """How members choose their parameters and disturbance at each step."""
    kind = rng.randint(4)
    g = rng.normal(size=n)
    fixed = {}

    def choose(x, da, d, om):
        if kind == 0 or (kind == 3 and not fixed):
            lam = rng.dirichlet(np.ones(len(da)))
            w = om[0] + rng.rand(om.shape[1]) * (om[1] - om[0])
        elif kind == 1:
            lam = np.eye(len(da))[rng.randint(len(da))]
            w = np.where(rng.rand(om.shape[1]) < .5, om[0], om[1])
        elif kind == 2:     # push along one direction
            lam = np.eye(len(da))[int(np.argmax([g @ (m @ x) for m in da]))]
            w = np.where(g @ d > 0, om[1], om[0])
        if kind == 3:       # constant parameter
            if not fixed:
                fixed["l"] = lam
            lam = fixed["l"]
            w = np.where(rng.rand(om.shape[1]) < .5, om[0], om[1])
        return lam, w
    return choose


def run(ctx, n_systems, steps):
    rng = ctx.rng
    for i in range(n_systems):
        n, kind, target = system(rng)
        m = int(rng.randint(1, 4))
        q = int(rng.randint(1, 3))
        b = rng.normal(size=(n, m))
        use_k = rng.rand() < .4
        k = rng.normal(size=(m, n)) * .5 if use_k else None
        a0 = target - (b @ k if use_k else 0)
        n_da = int(rng.randint(0, 4)) if rng.rand() < .9 else int(rng.randint(4, 12))
        da = [rng.normal(size=(n, n)) * rng.uniform(0, .5) for _ in range(n_da)]
        ctx.count("many_deviations", int(n_da > 3))
        if n_da and rng.rand() < .3:
            da[-1] = np.zeros((n, n))
        exact = rng.rand() < .2
        if kind == "complex" and np.abs(target - np.diag(np.diag(target))).max() < .13:
            da = [m_ * .02 for m_ in da]
        if exact:
            da = [] if rng.rand() < .4 else [np.zeros((n, n))]
        offset = rng.rand() < .5
        center = rng.normal(size=n) * 5 if offset else None
        disturbed = rng.rand() < .6 and not exact
        d = rng.normal(size=(n, q)) if disturbed else None
        om = np.sort(rng.normal(size=(2, q)), axis=0) * rng.uniform(0, 1.5) if disturbed else None
        x0 = rng.normal(size=n) * 3 + (center if offset else 0)
        wide = rng.rand() < .6 and not exact
        x_i = np.array([x0 - rng.uniform(0, 1.5, size=n), x0 + rng.uniform(0, 1.5, size=n)]) if wide else None
        mode = rng.randint(3)       # no control, constant control, changing control
        u = rng.normal(size=(m, 1)) * 2 if mode == 1 else None
        case = dict(a0=a0, da=da, b=b, k=k, center=center, d=d, omega_i=om, x0=x0, x_i=x_i, u=u, mode=int(mode), kind=kind)
        with ctx.guard(case):
            args = [None if v is None else np.array(v, dtype=float) for v in (x0, a0, b, d, om, u, k, center, x_i)]
            copies = [None if v is None else v.copy() for v in args]
            da_in = [m_.copy() for m_ in da]
            x0_, a0_, b_, d_, om_, u_, k_, c_, xi_ = args
            lpv = LPV(x0_, a0_, da_in, b_, d_, om_, u_, k_, c_, xi_)
            acl = target
            c = center if offset else np.zeros(n)
            dd, oo = (d, om) if disturbed else (np.zeros((n, 1)), np.zeros((2, 1)))
            deviations = da if da else [np.zeros((n, n))]
            ctx.count(kind)
            ctx.count("nearly", int(kind == "complex" and np.abs(target - np.diag(np.diag(target))).max() < .13))
            rotated = kind == "diagonalisable"
            if n == 1:
                ctx.count("one_state")
            for flag, name in ((use_k, "feedback"), (offset, "offset"), (offset and use_k and mode == 2, "offset_feedback"), (mode > 0, "control"), (disturbed, "disturbance"), (disturbed and rotated, "disturbance_rotated"),
                               (wide, "interval_start"), (wide and rotated, "rotated_interval_start"), (exact, "exact_system"), (not da, "no_deviation")):
                if flag:
                    ctx.count(name)
            start = np.array([x0, x0]) if x_i is None else x_i
            roundtrips(ctx, lpv, rng, n)
            inside(ctx, lpv, [start[0], start[1], (start[0] + start[1]) / 2], 0, 1e-8)
            if kind == "metzler" or (not wide and not rotated):
                ctx.close(bounds(lpv), start, "initial", "initial interval in the original coordinates", tol=1e-7)
            xs, choosers = [], []
            for j in range(10):
                t = rng.rand(n)
                xs.append(start[0] + (np.round(t) if j < 7 else t) * (start[1] - start[0]))
                choosers.append(adversary(rng, n))
            nominal = x0.copy()
            dt = period = stable_step(lpv.a0, rng)
            varying = rng.rand() < .3
            ctx.count("varying_step", int(varying))
            growth = 1 + 10 * (kind == "complex")
            for s in range(steps):
                if mode == 0:
                    ueff = np.zeros((m, 1))
                elif mode == 1 and s == 0:
                    ueff = u
                elif mode == 2 and (s == 0 or rng.rand() < .4):
                    control = rng.normal(size=(m, 1)) * 2
                    if use_k and rng.rand() < .7:
                        state = nominal[:, np.newaxis] + rng.normal(size=(n, 1)) * .2
                        ueff = control - k @ (state - c[:, np.newaxis])
                        lpv.set_control(control, state=state)
                    else:
                        ueff = control
                        lpv.set_control(control)
                if varying:
                    dt = period * float(rng.choice([.25, .5, 1.]))
                lpv.step(dt)
                for j in range(len(xs)):
                    lam, w = choosers[j](xs[j] - c, deviations, dd, oo)
                    A = acl + sum(l * m_ for l, m_ in zip(lam, deviations))
                    xs[j] = xs[j] + dt * (A @ (xs[j] - c) + dd @ w + (b @ ueff)[:, 0])
                nominal = nominal + dt * (acl @ (nominal - c) + (b @ ueff)[:, 0])
                ctx.count("member_steps", len(xs))
                lo_hi = bounds(lpv)
                if not np.isfinite(lo_hi).all() or np.abs(lo_hi).max() > 1e7:
                    ctx.count("diverged")
                    break
                eps = 1e-7 * growth * (1 + float(np.abs(lo_hi).max()))
                if not inside(ctx, lpv, xs, s + 1, eps):
                    break
                if not ctx.close(np.asarray(lpv.change_coordinates(np.array(lpv.x_t), back=True)), nominal, "nominal",
                                 "nominal state at step %d" % (s + 1), tol=1e-6 * (1 + float(np.abs(nominal).max()))):
                    break
                if exact and not ctx.close(lo_hi, np.array([nominal, nominal]), "exact", "interval of an exactly known system at step %d" % (s + 1), tol=eps * 10):
                    break
            for got, want in zip(args, copies):
                ctx.ok(want is None or np.array_equal(got, want), "mutates-arguments", "an argument of the system was modified")
            ctx.seen(a0, da, b, k, center, d, om, x0, x_i, int(mode))
            if i < 3:
                ctx.sample(kind=kind, states=n, deviations=len(da), width=np.round(lo_hi[1] - lo_hi[0], 3), dt=dt)


def modes(ctx, n_systems, steps):
    """A certain, undisturbed system with real eigenvalues started from a whole interval: the width follows its modes."""
    rng = ctx.rng
    for _ in range(n_systems):
        n, kind, a = system(rng)
        if kind not in ("metzler", "diagonalisable"):
            continue
        x0 = rng.normal(size=n) * 3
        x_i = np.array([x0 - rng.uniform(.1, 1.5, size=n), x0 + rng.uniform(.1, 1.5, size=n)])
        m = int(rng.randint(1, 3))
        b, k = rng.normal(size=(n, m)), rng.normal(size=(m, n)) * .5 if rng.rand() < .4 else None
        a0 = a - b @ k if k is not None else a
        da = [] if rng.rand() < .5 else [np.zeros((n, n))]
        c = rng.normal(size=n) if rng.rand() < .4 else None
        with ctx.guard(dict(a=a, x_i=x_i, b=b, k=k, c=c, kind=kind)):
            lpv = LPV(x0.copy(), a0.copy(), [d.copy() for d in da], b.copy(), None, None, None, None if k is None else k.copy(), None if c is None else c.copy(), x_i.copy())
            dt = stable_step(a, rng) if kind == "metzler" else float(rng.uniform(.01, .15))
            w0 = x_i[1] - x_i[0]
            if kind == "metzler":
                pre, post, step = np.eye(n), np.eye(n), np.eye(n) + dt * a
            else:
                lam, t = np.linalg.eig(a)
                pre, post, step = np.abs(t), np.abs(np.linalg.inv(t)), np.diag(np.abs(1 + dt * lam))
            if (step < 0).any():
                continue
            w = post @ w0
            for s in range(steps):
                lpv.step(dt)
                w = step @ w
                lo_hi = bounds(lpv)
                want = pre @ w
                got = lo_hi[1] - lo_hi[0]
                ctx.count("mode_widths")
                ctx.count("mode_widths_rotated", int(kind == "diagonalisable"))
                if not ctx.ok(bool(np.all(got <= want * (1 + 1e-6) + 1e-6 * (1 + np.abs(lo_hi).max()))), "width", "step %d: the interval of a certain %s system is wider than its modes make it: %s instead of %s" % (s + 1, kind, got, want)):
                    break
            ctx.seen(a, x_i, k, c, dt)


def bounds(lpv):
    return np.asarray(lpv.change_coordinates(np.array(lpv.x_i_t), back=True, interval=True), dtype=float)


def inside(ctx, lpv, xs, step, eps):
    b = bounds(lpv)
    if not ctx.ok(b.shape == (2, len(xs[0])), "shape", "interval of shape %s" % (b.shape,)):
        return False
    if not ctx.ok((b[0] <= b[1] + eps).all(), "order", "step %d: lower bound above upper bound %s" % (step, b)):
        return False
    for x in xs:
        if not ((b[0] <= x + eps).all() and (x <= b[1] + eps).all()):
            return ctx.ok(False, "escape", "step %d: member at %s outside %s" % (step, x, b))
    return ctx.ok(True, "escape")


def roundtrips(ctx, lpv, rng, n):
    x = rng.normal(size=n) * 3
    x0 = x.copy()
    ctx.count("roundtrip")
    z = lpv.change_coordinates(x)
    ctx.close(lpv.change_coordinates(np.array(z), back=True), x0, "roundtrip", "vector there and back", tol=1e-7)
    ctx.close(lpv.change_coordinates(np.array(lpv.change_coordinates(x0.copy(), offset=False)), back=True, offset=False), x0, "roundtrip-direction", "direction there and back", tol=1e-7)
    ctx.ok(np.array_equal(x, x0), "roundtrip:mutates", "changing coordinates modified the vector")
    m = rng.normal(size=(n, n))
    ctx.close(lpv.change_coordinates(lpv.change_coordinates(m, matrix=True), matrix=True, back=True), m, "roundtrip-matrix", "matrix there and back", tol=1e-7)
    l = [rng.normal(size=n) for _ in range(2)]
    ctx.close(np.array(lpv.change_coordinates(list(lpv.change_coordinates([v.copy() for v in l])), back=True)), np.array(l), "roundtrip-list", "list there and back", tol=1e-7)
    i = np.sort(rng.normal(size=(2, n)), axis=0)
    z = np.asarray(lpv.change_coordinates(i.copy(), interval=True))
    r = np.asarray(lpv.change_coordinates(z.copy(), interval=True, back=True))
    ctx.ok((r[0] <= i[0] + 1e-7).all() and (r[1] >= i[1] - 1e-7).all(), "roundtrip-interval", "interval there and back lost members")
    for _ in range(3):
        p = i[0] + np.round(rng.rand(n)) * (i[1] - i[0])
        q = np.asarray(lpv.change_coordinates(p.copy()))
        ctx.ok((z[0] <= q + 1e-7).all() and (q <= z[1] + 1e-7).all(), "interval-image", "image of a member outside the image of the interval")
    # a list is converted element by element, whatever is asked of the elements
    mats = [rng.normal(size=(n, n)) for _ in range(2)]
    ints = [np.sort(rng.normal(size=(2, n)), axis=0) for _ in range(2)]
    for values, kw in ((l, {}), (l, {"offset": False}), (mats, {"matrix": True}), (ints, {"interval": True}), (ints, {"interval": True, "offset": False})):
        for back in (False, True):
            one = [np.asarray(lpv.change_coordinates(v.copy(), back=back, **kw)) for v in values]
            ctx.close(np.array(lpv.change_coordinates([v.copy() for v in values], back=back, **kw)), np.array(one), "list-elements",
                      "list converted differently from its elements (%s, back=%s)" % (kw, back), tol=1e-9)
            ctx.count("lists")


def ackermann(A, B, poles):
    n = len(A)
    ctrb = np.hstack([np.linalg.matrix_power(A, i) @ B for i in range(n)])
    p = np.poly(poles)
    pA = sum(cf * np.linalg.matrix_power(A, n - i) for i, cf in enumerate(p))
    e = np.zeros((1, n))
    e[0, -1] = 1
    return -(e @ np.linalg.inv(ctrb) @ pA)


def env(ctx, episodes, steps):
    """The lane keeping environment with its predictor: members of the linear model under the environment's own actions."""
    rng = ctx.rng
    for _ in range(episodes):
        e = W.make("lane-keeping", seed=int(rng.randint(1 << 30)))
        try:
            e.reset()
            v = e.unwrapped.vehicle
            A, B = v.full_lateral_lpv_dynamics()
            K = ackermann(A, B, -np.arange(1, 5) * rng.uniform(.7, 1.3))
            x0 = v.state[[1, 2, 4, 5]].squeeze()
            d = np.array([[1.], [0], [0], [1]])
            om = np.array([[-.3], [.3]]) if rng.rand() < .7 else np.zeros((2, 1))
            x_i = np.array([x0 - .1, x0 + .1]) if rng.rand() < .6 else None
            xs = [x0.copy() if x_i is None else x_i[rng.randint(2)] for _ in range(6)]
            with ctx.guard(dict(A=A, B=B, K=K, om=om, x_i=x_i)):
                lpv = LPV(x0=x0, a0=A, da=[np.zeros(A.shape)], b=B, d=d, omega_i=om, u=None, k=K, center=None, x_i=x_i)
                e.unwrapped.lpv = lpv
                dt = 1 / e.unwrapped.config["simulation_frequency"]
                for s in range(steps):
                    state = v.state[[1, 2, 4, 5]].copy()
                    action = np.clip(K @ state, -.3, .3) + rng.uniform(-.05, .05, size=(1, 1))
                    ueff = action - K @ state
                    e.step(action)
                    ctx.count("env_steps")
                    for j in range(len(xs)):
                        w = om[rng.randint(2)]
                        xs[j] = xs[j] + dt * ((A + B @ K) @ xs[j] + d @ w + (B @ ueff)[:, 0])
                    if not inside(ctx, lpv, xs, s + 1, 1e-6 * (1 + np.abs(bounds(lpv)).max())):
                        break
                    rec = e.unwrapped.interval_trajectory
                    if not ctx.ok(len(rec) == s + 1, "recorded", "%d recorded intervals after %d steps" % (len(rec), s + 1)):
                        break
                    if s:
                        got = np.array(rec[-1], dtype=float)[:, [1, 2, 4, 5]]
                        ctx.close(got, prev, "recorded-interval", "recorded interval", tol=1e-7)
                    prev = bounds(lpv)
                ctx.seen(A, K, om, x0)
        finally:
            e.close()


def units(tier):
    k = 8 if tier == "thorough" else 1
    us = [("systems-%d" % i, run, dict(n_systems=400 * k, steps=25)) for i in range(6)]
    us += [("modes-%d" % i, modes, dict(n_systems=200 * k, steps=25)) for i in range(2)]
    return us + [("lane-keeping-%d" % i, env, dict(episodes=4 * k, steps=40)) for i in range(2)]
