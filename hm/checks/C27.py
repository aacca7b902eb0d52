"""Interval arithmetic against sampled and extreme members of the input intervals."""
import copy
import itertools
import math

import numpy as np

from hm import world as W
from hm.world import StraightLane, SineLane, CircularLane
from highway_env import interval as I
from highway_env.vehicle.uncertainty import prediction as P

RULE = ("random intervals of scalars, vectors and matrices (degenerate, of one sign, sign-changing, sparse, of very different magnitudes) pushed through "
        "every interval operation and compared with the operation on every corner (small dimensions) or on sampled and extremal members; the operations "
        "called while interval vehicles are simulated are checked in the same way; distinct by operation and operands")
REQUIRED = {"product_scalar": 1000, "product_matrix": 800, "product_certain": 600, "scaling": 800, "difference": 800, "negative": 800, "integrator": 1500,
            "integrator_mixed": 300, "section": 800, "to_local": 400, "to_absolute": 400, "curved": 200, "polytope": 300, "polytope_degenerate": 60,
            "metzler_yes": 200, "metzler_no": 200, "observed": 500}


def interval(rng, shape=()):
    scale = 10 ** rng.uniform(-2, 2)
    a = rng.normal(size=(2,) + shape) * scale
    kind = rng.randint(6)
    if kind == 0:
        a = np.abs(a)
    elif kind == 1:
        a = -np.abs(a)
    elif kind == 2:
        a[1] = a[0]
    elif kind == 3:
        a *= rng.rand(*a.shape) < .6
    elif kind == 4:
        a += 5 * scale * rng.normal(size=shape)
    return np.array([np.minimum(a[0], a[1]), np.maximum(a[0], a[1])])


def members(rng, x, n=6):
    """Corners and interior members of an interval of arrays."""
    x = np.asarray(x, dtype=float)
    out = [x[0], x[1]]
    for _ in range(n):
        t = rng.rand(*x.shape[1:])
        if rng.rand() < .7:
            t = np.round(t)
        out.append(x[0] + t * (x[1] - x[0]))
    return out


def corners(x):
    x = np.asarray(x, dtype=float)
    flat = x.reshape(2, -1)
    return [np.array([flat[b, i] for i, b in enumerate(bits)]).reshape(x.shape[1:]) for bits in itertools.product([0, 1], repeat=flat.shape[1])]


def tol(*xs):
    return 1e-9 * (1 + math.prod([float(np.max(np.abs(x))) if np.size(x) else 0. for x in xs]))


def contains(ctx, r, values, mech, what, eps):
    r = np.asarray(r, dtype=float)
    ctx.ok((r[0] <= r[1] + eps).all(), mech + ":order", "%s: lower bound above the upper bound: %s" % (what, r))
    for v in values:
        if not ((r[0] <= v + eps).all() and (v <= r[1] + eps).all()):
            ctx.ok(False, mech + ":lost", "%s: member %s outside %s" % (what, v, r))
            return
    ctx.ok(True, mech)


def tight(ctx, r, values, mech, what, eps):
    values = np.array(values)
    ctx.ok(np.all(np.abs(np.asarray(r)[0] - values.min(axis=0)) <= eps) and np.all(np.abs(np.asarray(r)[1] - values.max(axis=0)) <= eps),
           mech + ":loose", "%s: %s, but the result only spans %s" % (what, r, [values.min(axis=0), values.max(axis=0)]))


def products(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        if rng.rand() < .5:
            a, b = interval(rng), interval(rng)
            with ctx.guard(dict(op="product", a=a, b=b)):
                a_, b_ = (a, b) if rng.rand() < .7 else (list(a), list(b))
                r = I.intervals_product(a_, b_)
                ctx.count("product_scalar")
                vals = [x * y for x in a for y in b] + [x * y for x in members(rng, a) for y in members(rng, b)]
                contains(ctx, r, vals, "product", "%s x %s" % (a, b), tol(a, b))
                if a[0] == a[1] or b[0] == b[1]:
                    ctx.count("product_certain")
                    tight(ctx, r, [x * y for x in a for y in b], "product", "%s x %s" % (a, b), tol(a, b))
                ctx.seen("product", a, b)
            continue
        p, q, s = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 3)
        a = interval(rng, (p, q)) if rng.rand() < .8 else interval(rng, (q,))
        b = interval(rng, (q, s)) if rng.rand() < .5 else interval(rng, (q,))
        certain = rng.rand() < .4
        if certain:
            x = a if rng.rand() < .5 else b
            x[1] = x[0]
        with ctx.guard(dict(op="product", a=a, b=b)):
            a0, b0 = a.copy(), b.copy()
            r = I.intervals_product(a, b)
            ctx.ok(np.array_equal(a, a0) and np.array_equal(b, b0), "product:mutates", "the operands were modified")
            ctx.count("product_matrix")
            eps = tol(a, b) * q
            contains(ctx, r, [np.dot(x, y) for x in members(rng, a) for y in members(rng, b)], "product", "matrix product", eps)
            if certain and max(a.size, b.size) <= 2 * 8:
                ctx.count("product_certain")
                if (a[0] == a[1]).all():
                    tight(ctx, r, [np.dot(a[0], y) for y in corners(b)], "product", "certain matrix", eps)
                else:
                    tight(ctx, r, [np.dot(x, b[0]) for x in corners(a)], "product", "certain vector", eps)
            ctx.seen("product", a, b)


def simple(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        p, q = rng.randint(1, 5), rng.randint(1, 4)
        a = rng.normal(size=(p, q)) * (rng.rand(p, q) < .8)
        b = interval(rng, (q, 1)) if rng.rand() < .5 else interval(rng, (q,))
        if rng.rand() < .2:
            a, b = float(rng.normal()), interval(rng, (q,) if rng.rand() < .5 else ())
        with ctx.guard(dict(op="scaling", a=a, b=b)):
            r = I.intervals_scaling(a, b)
            ctx.count("scaling")
            vals = [np.dot(a, y) for y in corners(b)]
            contains(ctx, r, vals + [np.dot(a, y) for y in members(rng, b)], "scaling", "scaling", tol(a, b))
            tight(ctx, r, vals, "scaling", "scaling", tol(a, b))
            ctx.seen("scaling", a, b)
        shape = [(), (2,), (3,), (2, 2)][rng.randint(4)]
        a, b = interval(rng, shape), interval(rng, shape)
        with ctx.guard(dict(op="difference", a=a, b=b)):
            r = I.intervals_diff(a, b)
            ctx.count("difference")
            contains(ctx, r, [x - y for x in members(rng, a) for y in members(rng, b)], "difference", "%s - %s" % (a, b), 1e-9)
            tight(ctx, r, [a[0] - b[1], a[1] - b[0]], "difference", "%s - %s" % (a, b), 1e-9)
            ctx.seen("difference", a, b)
        with ctx.guard(dict(op="negative part", a=a)):
            a0 = a.copy()
            r = I.interval_negative_part(a)
            ctx.count("negative")
            contains(ctx, r, [np.where(x < 0, x, 0) for x in members(rng, a)], "negative", "negative part of %s" % (a,), 1e-12)
            tight(ctx, r, [np.where(x < 0, x, 0) for x in a], "negative", "negative part of %s" % (a,), 1e-12)
            ctx.ok(np.array_equal(a, a0), "negative:mutates", "the operand was modified")
            ctx.seen("negative", a)
        x, k = interval(rng), np.abs(interval(rng)) + 1e-3
        if rng.rand() < .3:
            x = np.array([-abs(rng.normal()), abs(rng.normal())]) * 10 ** rng.uniform(-2, 1)
        k = np.array([k.min(), k.max()])
        with ctx.guard(dict(op="integrator", x=x, k=k)):
            check_integrator(ctx, np.asarray(I.integrator_interval(x if rng.rand() < .8 else list(x), k), dtype=float), x, k)
            ctx.seen("integrator", x, k)
        v, d = interval(rng, (2,)), rng.normal(size=2)
        if rng.rand() < .3:
            d = np.array([[1., 0], [0, 1], [-1, 0], [0, -1]][rng.randint(4)])
        with ctx.guard(dict(op="section", v=v, d=d)):
            check_section(ctx, I.vector_interval_section(v, d if rng.rand() < .5 else list(d)), v, d)
            ctx.seen("section", v, d)


def check_integrator(ctx, r, x, k):
    """dx = -k x: the derivative of each end of the interval bounds the derivative of a member sitting there, for every gain."""
    x, k = np.asarray(x, dtype=float), np.asarray(k, dtype=float)
    ctx.count("integrator")
    if x[0] < 0 < x[1]:
        ctx.count("integrator_mixed")
    eps = tol(x, k)
    gains = np.linspace(k[0], k[1], 5)
    lo, hi = (-gains * x[0]).min(), (-gains * x[1]).max()
    ctx.ok(r[0] <= lo + eps and r[1] >= hi - eps, "integrator:lost", "x %s, k %s: %s does not bound [%s, %s]" % (x, k, r, lo, hi))
    ctx.ok(r[0] >= lo - eps and r[1] <= hi + eps, "integrator:loose", "x %s, k %s: %s is looser than [%s, %s]" % (x, k, r, lo, hi))
    # so that members stay inside after one small step
    dt = .1 / k[1]
    new = x + np.asarray(r) * dt
    xs = np.linspace(x[0], x[1], 5)
    for g in gains:
        y = xs - g * xs * dt
        if not (y >= new[0] - eps).all() or not (y <= new[1] + eps).all():
            ctx.ok(False, "integrator:step", "x %s, k %s: a member leaves the interval after a step" % (x, k))
            break


def check_section(ctx, r, v, d):
    ctx.count("section")
    vals = [np.dot(c, d) for c in corners(v)]
    contains(ctx, r, vals + [np.dot(c, d) for c in members(ctx.rng, v)], "section", "section of %s along %s" % (v, d), tol(v, d))
    tight(ctx, r, vals, "section", "section of %s along %s" % (v, d), tol(v, d))


def lanes(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        kind = rng.randint(4)
        a, h, L = rng.uniform(-50, 50, size=2), rng.uniform(-math.pi, math.pi), rng.uniform(20, 200)
        if rng.rand() < .3:
            h = float(rng.choice([0, math.pi / 2, -math.pi / 2, math.pi]))
        b = a + L * np.array([math.cos(h), math.sin(h)])
        if kind <= 1:
            lane = StraightLane(a, b)
        elif kind == 2:
            lane = SineLane(a, b, float(rng.uniform(-3, 3)), 2 * math.pi / 80, float(rng.uniform(-3, 3)))
        else:
            lane = CircularLane(a, float(rng.uniform(20, 60)), 0.5, 2.0, clockwise=True)
        straight = kind <= 1
        longi = np.sort(rng.uniform(0, L, size=2))
        lat = np.sort(rng.uniform(-5, 5, size=2))
        if rng.rand() < .2:
            longi[1] = longi[0]
        if rng.rand() < .2:
            lat[1] = lat[0]
        with ctx.guard(dict(op="to_absolute", kind=kind, lane=vars(lane), longi=longi, lat=lat)):
            check_absolute(ctx, I.interval_local_to_absolute(longi, lat, lane), longi, lat, lane, straight)
            ctx.seen("to_absolute", longi, lat, h)
        w = rng.uniform(0, 8, size=2) * (rng.rand(2) < .85)
        p = np.asarray(W.ref_position(lane, rng.uniform(0, L), rng.uniform(-3, 3)))
        box = np.array([p - w / 2, p + w / 2])
        with ctx.guard(dict(op="to_local", kind=kind, lane=vars(lane), box=box)):
            check_local(ctx, I.interval_absolute_to_local(box, lane), box, lane, straight)
            ctx.seen("to_local", box, h)


def check_absolute(ctx, r, longi, lat, lane, straight):
    rng = ctx.rng
    longi, lat = np.asarray(longi, dtype=float), np.asarray(lat, dtype=float)
    ctx.count("to_absolute")
    ctx.ok(np.shape(r) == (2, 2), "to-absolute:shape", "shape %s" % (np.shape(r),))
    vals = [np.asarray(W.ref_position(lane, s, t)) for s in longi for t in lat]
    eps = 1e-6
    tight(ctx, r, vals, "to-absolute", "local %s %s" % (longi, lat), eps)
    if straight:
        vals = [np.asarray(W.ref_position(lane, rng.uniform(*longi), rng.uniform(*lat))) for _ in range(5)]
    else:
        ctx.count("curved")
    contains(ctx, r, vals, "to-absolute", "local %s %s" % (longi, lat), eps)


def check_local(ctx, r, box, lane, straight):
    rng = ctx.rng
    ctx.count("to_local")
    r = np.array([np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)]).T     # [lo, hi] x [longitudinal, lateral]
    vals = [np.asarray(W.ref_local(lane, c)) for c in corners(box)]
    eps = 1e-6
    tight(ctx, r, vals, "to-local", "box %s" % (box,), eps)
    if straight:
        vals = [np.asarray(W.ref_local(lane, c)) for c in members(rng, box)]
    else:
        ctx.count("curved")
    contains(ctx, r, vals, "to-local", "box %s" % (box,), eps)


def matrices(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        m, p = rng.randint(1, 4), rng.randint(1, 6)
        a, phi = rng.normal(size=(m, m)), rng.normal(size=(p, m, m)) * (rng.rand(p, 1, 1) < .8)
        q = rng.normal(size=(m, m)) if rng.rand() < .4 else np.zeros((m, m))
        f = lambda t: a + np.tensordot(phi, t, axes=[0, 0]) + q * float(np.prod(t))
        box = interval(rng, (p,))
        if rng.rand() < .4:
            j = rng.randint(p)
            box[1, j] = box[0, j]
        with ctx.guard(dict(op="polytope", a=a, phi=phi, q=q, box=box)):
            check_polytope(ctx, I.polytope(f, box), f, box)
            ctx.seen("polytope", a, phi, box)
        k = rng.randint(1, 6)
        mat = rng.normal(size=(k, k))
        if rng.rand() < .5:
            mat = np.abs(mat) * (rng.rand(k, k) < .7)
            mat -= np.diag(rng.uniform(-2, 5, size=k))
        if rng.rand() < .5 and k > 1:
            i = rng.randint(k)
            j = (i + rng.randint(1, k)) % k
            mat = np.abs(mat) if rng.rand() < .7 else mat
            mat[i, j] = float(rng.choice([-1e-3, -1e-6, 0., 1e-6, -1, -1e3]))
        off = mat[~np.eye(k, dtype=bool)]
        if off.size and np.any((off < 0) & (off > -1e-7)):
            continue
        with ctx.guard(dict(op="metzler", mat=mat)):
            want = not (off < 0).any()
            ctx.count("metzler_yes" if want else "metzler_no")
            ctx.ok(bool(I.is_metzler(mat)) == want, "metzler", "is_metzler %s for %s" % (not want, mat))
            ctx.seen("metzler", mat)


def check_polytope(ctx, r, f, box):
    a0, da = r
    box = np.asarray(box, dtype=float)
    ctx.count("polytope")
    mid = f(box.mean(axis=0))
    eps = 1e-9 * (1 + float(np.abs(mid).max()))
    ctx.close(a0, mid, "polytope:centre", "value at the centre of the box", tol=eps)
    verts = []
    for c in corners(box):
        v = f(c) - mid
        if not any(np.abs(v - u).max() <= 1e-12 for u in verts):
            verts.append(v)
    eps = 1e-7 * (1 + max(float(np.abs(v).max()) for v in verts))
    ctx.ok(all(any(np.abs(v - d).max() <= eps for d in da) for v in verts), "polytope:vertex", "a vertex of the box is not in the polytope")
    ctx.ok(all(any(np.abs(v - d).max() <= eps for v in verts) for d in da), "polytope:extra", "a deviation corresponds to no vertex")
    if (box[0] == box[1]).any():
        ctx.count("polytope_degenerate")
        ctx.ok(len({np.asarray(d).tobytes() for d in da}) == len(da), "polytope:duplicate", "deviations are repeated")


def observed(ctx, scenes):
    """Operations called by the interval vehicles themselves."""
    rng = ctx.rng
    seen = []

    def product(f):
        def wrapped(a, b):
            r = f(a, b)
            seen.append(("product", np.array(a, dtype=float), np.array(b, dtype=float), np.array(r)))
            return r
        return wrapped

    def named(name):
        def deco(f):
            def wrapped(*args):
                copies = [np.array(a, dtype=float) if not hasattr(a, "local_coordinates") and not callable(a) else a for a in args]
                r = f(*args)
                seen.append((name,) + tuple(copies) + (copy.deepcopy(r),))
                return r
            return wrapped
        return deco

    for name, label in [("intervals_diff", "difference"), ("interval_negative_part", "negative"), ("integrator_interval", "integrator"),
                        ("vector_interval_section", "section"), ("interval_absolute_to_local", "to_local"),
                        ("interval_local_to_absolute", "to_absolute"), ("polytope", "polytope")]:
        if hasattr(P, name):
            setattr(P, name, named(label)(getattr(P, name)))
    for m in (P, I):
        if hasattr(m, "intervals_product"):
            m.intervals_product = product(m.intervals_product)
    from highway_env.road.road import Road, RoadNetwork
    for _ in range(scenes):
        road = Road(RoadNetwork.straight_road_network(3), np_random=np.random.RandomState(rng.randint(1 << 30)))
        vs = []
        for i in range(rng.randint(1, 4)):
            v = P.IntervalVehicle(road, [30. * i + rng.uniform(0, 10), 4. * rng.randint(3) + rng.uniform(-.5, .5)], heading=rng.uniform(-.05, .05),
                                  speed=rng.uniform(15, 25), target_speed=rng.uniform(18, 28), enable_lane_change=False)
            vs.append(v)
            road.vehicles.append(v)
        mode = "partial" if rng.rand() < .6 else "predictor"
        del seen[:]
        with ctx.guard(dict(op="scene", mode=mode, vehicles=[W.vstate(v) for v in vs])):
            for _ in range(6):
                road.act()
                for v in vs:
                    v.step(1 / 15, mode)
        log = list(seen)
        del seen[:]
        for e in log:
            if any(isinstance(x, np.ndarray) and x.ndim and len(x) == 2 and not (x[0] <= x[1]).all() for x in e[1:-1]):
                ctx.count("unordered_operand")
                continue
            ctx.count("observed")
            with ctx.guard(dict(op="observed", event=[x for x in e if not callable(x)])):
                op, r = e[0], e[-1]
                if op == "product":
                    a, b = e[1], e[2]
                    contains(ctx, r, [np.dot(x, y) for x in members(rng, a, 2) for y in members(rng, b, 2)], "product", "observed", tol(a, b) * 4)
                elif op == "difference":
                    contains(ctx, r, [x - y for x in members(rng, e[1], 2) for y in members(rng, e[2], 2)], "difference", "observed", 1e-9)
                elif op == "negative":
                    contains(ctx, r, [np.where(x < 0, x, 0) for x in members(rng, e[1])], "negative", "observed", 1e-12)
                elif op == "integrator":
                    check_integrator(ctx, np.asarray(r, dtype=float), e[1], e[2])
                elif op == "section":
                    check_section(ctx, r, e[1], e[2])
                elif op == "to_local":
                    check_local(ctx, r, e[1], e[2], True)
                elif op == "to_absolute":
                    check_absolute(ctx, r, e[1], e[2], e[3], True)
                elif op == "polytope":
                    check_polytope(ctx, r, e[1], e[2])
        ctx.seen("scene", len(log), mode, [W.vstate(v) for v in vs])
        ctx.sample(mode=mode, operations=len(log), kinds=sorted({e[0] for e in log}))


def units(tier):
    k = 10 if tier == "thorough" else 1
    us = []
    for i in range(2):
        us += [("products-%d" % i, products, dict(n=1500 * k)), ("simple-%d" % i, simple, dict(n=1000 * k)), ("lanes-%d" % i, lanes, dict(n=600 * k)),
               ("matrices-%d" % i, matrices, dict(n=800 * k))]
    us += [("observed-%d" % i, observed, dict(scenes=12 * k)) for i in range(2)]
    return us
