"""Parameter estimates against known parameters, and route hypotheses during drives."""
import copy
import math

import numpy as np

from hm import world as W
from highway_env import utils as U
from highway_env.road.lane import StraightLane
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle, RegressionVehicle

RULE = ("data sets of 1 to 60 observations generated by known parameters of 1 to 4 dimensions inside a prior box (well and badly excited features, bounded noise "
        "below the level the confidence radius covers, parameters on the border of the box), data of simulated drivers, grossly incompatible observations, and "
        "drives of multiple-model drivers through intersections to every exit; distinct by data set or drive")
REQUIRED = {"forks_2": 3, "forks_3": 3, "estimates": 1200, "contained": 900, "polytope_clipped": 300, "polytope_inner": 60, "members": 3000, "consistent": 800, "inconsistent": 400,
            "driver_estimates": 20, "regression_models": 20, "no_data": 10, "acts": 1500, "hypotheses_3": 300, "rejections": 20, "own_route": 1000, "extended": 5,
            "assumed": 40, "to_the_end": 4, "observed_outputs": 500, "foreign_outputs": 50, "forgotten": 30, "bookkeeping": 600, "bookkeeping_grown": 150}


def directions(rng, d, n=40):
    g = rng.normal(size=(n, d))
    return np.concatenate([g, np.eye(d), -np.eye(d)])


def dataset(rng):
    if rng.rand() < .1:     # hardly any excitation, large parameters
        d, n = int(rng.randint(1, 4)), int(rng.randint(1, 4))
        lo = rng.uniform(-10, 8, size=d)
        box = np.array([lo, lo + rng.uniform(.5, 4, size=d)])
        theta = box[0] + rng.rand(d) * (box[1] - box[0])
        phi = rng.normal(size=(n, d)) * 1e-3
        return d, n, box, theta, phi, phi @ theta
    d = int(rng.randint(1, 5))
    n = int(rng.choice([1, 2, 3, 5, 10, 20, 40, 60]))
    lo = rng.normal(size=d) * 2
    box = np.array([lo, lo + rng.uniform(.05, 4, size=d)])
    t = rng.rand(d)
    if rng.rand() < .4:
        t = np.where(rng.rand(d) < .5, np.round(t), t)
    theta = box[0] + t * (box[1] - box[0])
    scale = 10 ** rng.uniform(-1, 1)
    phi = rng.normal(size=(n, d)) * scale
    kind = rng.randint(4)
    if kind == 0:       # badly excited
        phi[:, rng.randint(d)] *= 1e-2
    elif kind == 1 and d > 1:    # correlated
        phi[:, 0] = phi[:, 1] * rng.uniform(.5, 2) + rng.normal(size=n) * .1 * scale
    eps = min(.1, 2. * math.sqrt(.1 / n)) * rng.choice([0., .3, 1.])
    noise = rng.uniform(-1, 1, size=n) * eps
    if rng.rand() < .3:
        noise = np.sign(noise) * eps
    y = phi @ theta + noise
    return d, n, box, theta, phi, y


def as_data(phi, y):
    return {"features": [p.copy() for p in phi], "outputs": [float(v) for v in y]}


def data_copy(data):
    return copy.deepcopy(data)


def same_data(a, b):
    return len(a["outputs"]) == len(b["outputs"]) and np.array_equal(np.array(a["features"]), np.array(b["features"])) and np.array_equal(a["outputs"], b["outputs"])


def regression(ctx, n_sets):
    rng = ctx.rng
    for i in range(n_sets):
        d, n, box, theta, phi, y = dataset(rng)
        with ctx.guard(dict(phi=phi, y=y, box=box, theta=theta)):
            data = as_data(phi, y)
            kept = data_copy(data)
            lam, sigma = (1e-5, .1) if rng.rand() < .6 else (10 ** rng.uniform(-6, 0), 10 ** rng.uniform(-2, 0))
            if lam == 1e-5 and rng.rand() < .5:
                est, g, beta = U.confidence_ellipsoid(data, param_bound=float(np.abs(box).max()))
            else:
                est, g, beta = U.confidence_ellipsoid(data, lambda_=lam, sigma=sigma, param_bound=float(np.abs(box).max()))
            check_estimate(ctx, est, g, beta, phi, y, lam, sigma)
            if sigma >= .1 and lam >= 1e-5 or (lam, sigma) == (1e-5, .1):
                err = est - theta
                ctx.count("contained")
                ctx.ok(math.sqrt(max(err @ g @ err, 0)) <= beta * (1 + 1e-6) + 1e-6, "ellipsoid:lost", "the true parameter is at %s of radius %s" % (math.sqrt(max(err @ g @ err, 0)), beta))
            th, da, g2, beta2 = U.confidence_polytope(data, parameter_box=box)
            check_polytope(ctx, th, da, phi, y, box, theta, beta2)
            consistency(ctx, rng, phi, y, box, theta)
            ctx.ok(same_data(data, kept), "mutates", "the data set was modified")
            ctx.seen(phi, y, box)
            if i < 2:
                ctx.sample(observations=n, dimension=d, true=np.round(theta, 3), estimate=np.round(th, 3), deviations=np.round(da, 3))


def check_estimate(ctx, est, g, beta, phi, y, lam, sigma):
    ctx.count("estimates")
    d = phi.shape[1]
    H = phi.T @ phi / sigma + lam * np.eye(d)
    grad = H @ est - phi.T @ y / sigma
    ctx.ok(np.abs(grad).max() <= 1e-6 * (1 + np.abs(phi.T @ y / sigma).max() + np.abs(H).max() * np.abs(est).max()), "estimate",
           "%s does not minimise the regularised squared error, gradient %s" % (est, grad))
    ctx.close(g, H, "gramian", "Gramian", tol=1e-6 * (1 + np.abs(H).max()))
    ctx.ok(np.isfinite(beta) and beta > 0, "radius", "radius %s" % beta)


def check_polytope(ctx, th, da, phi, y, box, theta, beta, lam=1e-5, sigma=.1):
    """Every parameter of the box in the confidence region is in the hull of the vertices, which stay in the box."""
    rng = ctx.rng
    d = phi.shape[1]
    H = phi.T @ phi / sigma + lam * np.eye(d)
    ls = np.linalg.solve(H, phi.T @ y / sigma)
    eps = 1e-6 * (1 + np.abs(box).max())
    vertices = np.asarray(th) + np.asarray(da)
    ctx.ok((vertices >= box[0] - eps).all() and (vertices <= box[1] + eps).all(), "polytope:outside-box", "a vertex is outside the prior box %s: %s" % (box, vertices))
    ctx.ok((th >= box[0] - eps).all() and (th <= box[1] + eps).all(), "polytope:centre", "the estimate %s is outside the prior box" % (th,))
    ctx.close(th, np.clip(ls, box[0], box[1]), "polytope:estimate", "estimate clipped to the prior box", tol=1e-4 * (1 + np.abs(box).max()))
    half = beta * np.sqrt(np.diag(np.linalg.inv(H)))
    ctx.count("polytope_clipped" if ((ls - half < box[0]) | (ls + half > box[1])).any() else "polytope_inner")
    members = [theta]
    val, vec = np.linalg.eigh(H)
    for k in range(12):
        z = rng.normal(size=d)
        if k < 6:
            z = np.eye(d)[k % d] * rng.choice([-1, 1])
        z = z / np.linalg.norm(z) * beta * .999
        p = ls + vec @ (z / np.sqrt(val))
        if k % 2:
            p = p + (theta - p) * rng.rand()
        members.append(p)
    members += [box[0] + np.round(rng.rand(d)) * (box[1] - box[0]) for _ in range(4)]
    dirs = directions(rng, d)
    support = (vertices @ dirs.T).max(axis=0)
    for p in members:
        e = p - ls
        if (p < box[0] - 1e-12).any() or (p > box[1] + 1e-12).any() or math.sqrt(max(e @ H @ e, 0)) > beta * (1 - 1e-9):
            continue
        ctx.count("members")
        if not ctx.ok((dirs @ p <= support + eps).all(), "polytope:lost", "parameter %s is in the box and in the confidence region but not in the polytope of vertices %s" % (p, vertices.tolist())):
            break


def consistency(ctx, rng, phi, y, box, theta):
    n = len(y)
    data = as_data(phi, y)
    kept = data_copy(data)
    with_box = rng.rand() < .85
    norm1 = float(np.abs(theta).max()) <= 1
    if with_box or norm1:
        kw = dict(parameter_box=box) if with_box else {}
        ctx.ok(bool(U.is_consistent_dataset(data, **kw)), "consistent", "data generated by a parameter of the box judged inconsistent")
        ctx.count("consistent")
        ctx.ok(same_data(data, kept), "mutates", "the data set was modified")
    if n >= 3 and with_box:
        H = phi[:-1].T @ phi[:-1] / .1 + 1e-5 * np.eye(phi.shape[1])
        _, _, beta = U.confidence_ellipsoid(as_data(phi[:-1], y[:-1]), param_bound=float(np.abs(box).max()))
        bound = math.sqrt(phi[-1] @ phi[-1] / np.linalg.eigvalsh(H)[0]) * beta + .1
        bad = y.copy()
        bad[-1] += rng.choice([-1, 1]) * (4 * bound + 1)
        ctx.count("inconsistent")
        ctx.ok(not U.is_consistent_dataset(as_data(phi, bad), parameter_box=box), "inconsistent", "an observation off by %s was judged consistent" % (4 * bound + 1))


# ------------------------------------------------------------------ data of simulated drivers
def drivers(ctx, n):
    rng = ctx.rng
    for i in range(n):
        road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(int(rng.randint(1 << 30))))
        v = LinearVehicle(road, [0., rng.uniform(-.8, .8)], rng.uniform(-.05, .05), rng.uniform(15, 28), target_speed=rng.uniform(15, 28), enable_lane_change=False)
        front = LinearVehicle(road, [rng.uniform(20, 60), 0.], 0, rng.uniform(10, 24), target_speed=rng.uniform(10, 25), enable_lane_change=False)
        road.vehicles = [v, front] if rng.rand() < .8 else [v]
        v.randomize_behavior()
        front.collecting_data = False
        A, B = np.asarray(v.ACCELERATION_PARAMETERS), np.asarray(v.STEERING_PARAMETERS)
        with ctx.guard(dict(vehicles=[W.vstate(x) for x in road.vehicles], A=A, B=B)):
            for s in range(25):
                want = W.ref_linear_features(v, v, W.ref_neighbours(road, v, v.lane_index)[0]) if len(road.vehicles) > 1 else np.array([v.target_speed - v.speed, 0, 0])
                road.act()
                last = v.data["longitudinal"]
                ctx.close(last["features"][-1], want, "data:features", "recorded longitudinal features", tol=1e-6)
                ctx.close(last["outputs"][-1], np.dot(A, want), "data:output", "recorded longitudinal output", tol=1e-6)
                ctx.ok(len(last["features"]) == s + 1 and len(v.data["lateral"]["features"]) == s + 1, "data:length", "one observation per decision")
                lane = v.lane
                psi = W.wrap(0. - v.heading) * v.LENGTH / v.speed
                lat = -W.ref_local(lane, v.position)[1] * v.LENGTH / v.speed ** 2
                ctx.close(v.data["lateral"]["features"][-1], [psi, lat], "data:lateral", "recorded lateral features", tol=1e-6)
                ctx.close(v.data["lateral"]["outputs"][-1], np.dot(B, [psi, lat]), "data:lateral-output", "recorded lateral output", tol=1e-6)
                road.step(1 / 15)
                if v.crashed:
                    break
            if v.crashed:
                continue
            data = data_copy(v.data)
            for key, truth, box in (("longitudinal", A, LinearVehicle.ACCELERATION_RANGE), ("lateral", B, LinearVehicle.STEERING_RANGE)):
                phi, y = np.array(data[key]["features"], dtype=float), np.array(data[key]["outputs"], dtype=float)
                th, da, g, beta = U.confidence_polytope(data[key], parameter_box=box)
                ctx.count("driver_estimates")
                check_polytope(ctx, th, da, phi, y, box, truth, beta)
                ctx.ok(U.is_consistent_dataset(data[key], parameter_box=box), "consistent", "a driver's own data judged inconsistent")
            r = RegressionVehicle.create_from(v)
            models(ctx, r, A, B)
            fresh = RegressionVehicle.create_from(v)
            fresh.data = {}
            ctx.count("no_data")
            models(ctx, fresh, A, B)
            fresh.step(1 / 15, "predictor")
            r.step(1 / 15, "predictor")
            ctx.seen(A, B, W.vstate(v))


def models(ctx, r, A, B):
    """The matrix polytopes of the estimated models contain the true dynamics."""
    for name, polytope, structure, truth in (("longitudinal", r.longitudinal_matrix_polytope(), r.longitudinal_structure(), A),
                                             ("lateral", r.lateral_matrix_polytope(), r.lateral_structure(), B)):
        ctx.count("regression_models")
        a0, da = polytope
        a, phi = structure
        true = a + sum(t * p for t, p in zip(truth, phi))
        V = np.array([np.asarray(a0) + np.asarray(m) for m in da]).reshape(len(da), -1)
        dirs = np.concatenate([ctx.rng.normal(size=(60, true.size)), np.eye(true.size), -np.eye(true.size)])
        ctx.ok((dirs @ true.ravel() <= (V @ dirs.T).max(axis=0) + 1e-5).all(), "model:" + name, "the %s dynamics of the driver are not in the polytope estimated from its data" % name)


# ------------------------------------------------------------------ drives through intersections
def drives(ctx, n, steps):
    rng = ctx.rng
    from highway_env.envs.intersection_env import IntersectionEnv
    for i in range(n):
        e = W.make("intersection", {"initial_vehicle_count": 1}, int(rng.randint(1 << 30)))
        road = e.road
        a = int(rng.randint(4))
        b = (a + int(rng.randint(1, 4))) % 4
        lane = road.network.get_lane(("o%d" % a, "ir%d" % a, 0))
        v = MultipleModelVehicle(road, lane.position(rng.uniform(20, 85), rng.uniform(-.3, .3)), lane.heading_at(0), rng.uniform(6, 10),
                                 target_speed=rng.uniform(7, 10), enable_lane_change=bool(rng.rand() < .5))
        if rng.rand() < .5:
            v.randomize_behavior()
        v.plan_route_to("o%d" % b)
        road.vehicles = [v]
        end = rng.rand() < .3
        drive(ctx, road, v, steps * (3 if end else 1), dict(entry=a, exit=b, start=W.vstate(v)), end)
        e.close()


def forks(ctx, n, steps):
    """Chains of roads ending in a fork of two or three exits."""
    rng = ctx.rng
    for i in range(n):
        net = RoadNetwork()
        pos, route = np.zeros(2), []
        for k in range(int(rng.randint(1, 4))):
            end = pos + [float(rng.uniform(20, 40)), 0]
            net.add_lane("n%d" % k, "n%d" % (k + 1), StraightLane(pos, end))
            route.append(("n%d" % k, "n%d" % (k + 1), 0))
            pos = end
        exits = int(rng.randint(2, 4))
        for k, a in enumerate(rng.permutation([-.5, 0, .5])[:exits]):
            net.add_lane(route[-1][1], "o%d" % k, StraightLane(pos, pos + 60 * np.array([np.cos(a), np.sin(a)])))
        route.append((route[-1][1], "o%d" % int(rng.randint(exits)), 0))
        road = Road(net, np_random=np.random.RandomState(int(rng.randint(1 << 30))))
        lane = net.get_lane(route[0])
        v = MultipleModelVehicle(road, lane.position(rng.uniform(0, 15), rng.uniform(-.3, .3)), 0, rng.uniform(6, 10), target_speed=rng.uniform(7, 10),
                                 route=list(route), enable_lane_change=False)
        road.vehicles = [v]
        ctx.count("forks_%d" % exits)
        drive(ctx, road, v, steps, dict(entry=route[0], exit=route[-1], start=W.vstate(v)), False)


def bookkeeping(ctx, n):
    """Arbitrary known routes and candidates: new ones are added, longer versions of known ones replace them with their data, others stay."""
    rng = ctx.rng
    for i in range(n):
        net = RoadNetwork()
        for k in range(40):
            a, b = rng.choice(list("abcdef"), size=2, replace=False)
            net.add_lane(str(a), str(b), StraightLane([0, 0], [100, 0]))
        road = Road(net, np_random=np.random.RandomState(0))

        def walk(first, k):
            r = [first]
            while len(r) < k:
                nxt = sorted(net.graph.get(r[-1][1], {}))
                if not nxt:
                    break
                r.append((r[-1][1], nxt[int(rng.randint(len(nxt)))], 0))
            return r
        first = [(a, b, 0) for a in net.graph for b in net.graph[a]]
        first = first[int(rng.randint(len(first)))]
        prefix = lambda x, y: len(x) <= len(y) and y[:len(x)] == x
        known, cands = [], []
        for _ in range(int(rng.randint(0, 5))):
            r = walk(first, int(rng.randint(1, 5)))
            if not any(prefix(r, q) or prefix(q, r) for q in known):
                known.append(r)
        for _ in range(int(rng.randint(1, 4))):
            base = known[int(rng.randint(len(known)))] if known and rng.rand() < .5 else [first]
            r = base[:-1] + walk(base[-1], int(rng.randint(1, 4)))
            if not any(prefix(r, q) or prefix(q, r) for q in cands):
                cands.append(r)
        v = MultipleModelVehicle(road, [float(rng.uniform(5, 90)), 0], 0, 10)
        v.data = [(list(r), {}) for r in known]
        given = [[(l[0], l[1], None if k and rng.rand() < .5 else l[2]) for k, l in enumerate(r)] for r in cands]
        v.get_routes_at_intersection = lambda: [list(r) for r in given]
        want = [[r, id(d)] for (r, d) in zip(known, [d for _, d in v.data])]
        grown = 0
        for r in cands:
            if any(r == q for q, _ in want):
                continue
            short = [w for w in want if prefix(w[0], r)]
            if short:
                short[0][0] = r
                grown += 1
            else:
                want.append([r, None])
        with ctx.guard(dict(known=known, candidates=cands)):
            v.update_possible_routes()
            got = [([tuple(l) for l in r], id(d)) for r, d in v.data]
            ctx.count("bookkeeping")
            ctx.count("bookkeeping_grown", grown)
            ctx.ok(sorted(r for r, _ in got) == sorted(r for r, _ in want), "bookkeeping:routes", "routes %s instead of %s" % ([r for r, _ in got], [r for r, _ in want]))
            ctx.ok(all(dict((tuple(r), x) for r, x in got).get(tuple(r)) == x for r, x in want if x), "bookkeeping:data", "the data of a known route was lost or exchanged")
            ctx.seen("bookkeeping", known, cands)


def follows(route, own):
    """Is one a prefix of the other, as sequences of roads?"""
    p, q = [r[:2] for r in route], [r[:2] for r in own]
    m = min(len(p), len(q))
    return m > 0 and p[:m] == q[:m]


def drive(ctx, road, v, steps, case, end):
    rng = ctx.rng
    with ctx.guard(case):
        most = 0
        for s in range(steps):
            lane = v.lane
            if v.lane_index[1].startswith("o") and lane.local_coordinates(v.position)[0] > lane.length - 3:
                ctx.count("to_the_end")
                if lane.local_coordinates(v.position)[0] > lane.length + 6:
                    break
            if len(v.data) > 1 and rng.rand() < .04:   # forgotten hypotheses are formed again, from nothing
                del v.data[int(rng.randint(len(v.data)))]
                ctx.count("forgotten")
            own = None if v.route is None else [tuple(x) for x in v.route]
            before = [([tuple(x) for x in r], data_copy(d)) for r, d in v.data]
            target = tuple(v.target_lane_index)
            alternatives = [] if not own else branches(road.network, own)
            v.act()
            after = [([tuple(x) for x in r], d) for r, d in v.data]
            ctx.count("acts")
            ctx.count("hypotheses_%d" % len(after))
            most = max(most, len(after))
            names = [tuple(r) for r, _ in after]
            ctx.ok(len(set(names)) == len(names), "hypotheses:duplicate", "routes %s" % names)
            ctx.ok(all(len(r) for r in names), "hypotheses:empty", "an empty route: %s" % names)
            ctx.ok(all(l[2] is not None for r in names for l in r), "hypotheses:lane", "a route without a definite lane: %s" % names)
            if own and v.route:
                ctx.count("own_route")
                ctx.ok(any(follows(r, v.route) for r in names), "hypotheses:own", "the followed route %s is not among %s" % (v.route, names))
            for alt in alternatives:
                if not before and not any(follows(r, alt) for r in names):
                    ctx.ok(False, "hypotheses:missing", "route %s is possible at the next intersection, but not considered: %s" % (alt, names))
            lists = [id(d) for _, d in after] + [id(d[k][f]) for _, d in after for k in d for f in d[k]]
            ctx.ok(len(set(lists)) == len(lists), "hypotheses:shared", "hypotheses share their data")
            gone(ctx, before, after, v)
            for r, d in after:
                old = [o for q, o in before if (follows(q, r) or follows(q[1:], r)) and o and d and np.array_equal(np.array(o["lateral"]["outputs"]), np.array(d["lateral"]["outputs"][:-1]))]
                new = not any(follows(q, r) for q, _ in before)
                if any(q != r and follows(q, r) and len(q) < len(r) for q, _ in before):
                    ctx.count("extended")
                ctx.ok(bool(d) and (bool(old) or len(d["lateral"]["outputs"]) == 1), "hypotheses:data", "the data of route %s was not extended by one observation (%s -> %s), routes %s" % (r, [(q, len(o["lateral"]["outputs"]) if o else 0) for q, o in before], len(d["lateral"]["outputs"]) if d else 0, names), new=new)
                if d:
                    observation(ctx, d, r, v, target)
            if rng.rand() < .03 and v.data:
                assumed(ctx, v)
            v.step(1 / 15)
        ctx.ok(most <= 4, "hypotheses:many", "%d hypotheses" % most)
        ctx.seen(case, most)
        ctx.sample(entry=case["entry"], exit=case["exit"], hypotheses=[len(r) for r, _ in v.data])


def branches(network, own):
    """Independent list of the continuations at the next branching node (first three roads of the route)."""
    for k, road in enumerate(own[:3]):
        nxt = network.graph.get(road[1], {})
        if len(nxt) >= 2:
            return [own[:k + 1] + [(road[1], d, 0)] for d in nxt]
    return [own]


def gone(ctx, before, after, v):
    """A hypothesis disappears only when its data is inconsistent."""
    kept = [r for r, _ in after]
    for r, d in before:
        rest = [r[k:] for k in range(len(r))]
        if any(q and any(follows(q, x) for x in rest[:2] if x) for q in kept):
            continue
        ctx.count("rejections")
        ctx.ok(bool(d) and not U.is_consistent_dataset(data_copy(d["lateral"]), parameter_box=LinearVehicle.STEERING_RANGE), "hypotheses:dropped",
               "route %s was dropped although its data is consistent" % (r,))
    for r, d in after:
        if d and len(d["lateral"]["outputs"]) > 1:
            past = dict(features=list(d["lateral"]["features"][:-1]), outputs=list(d["lateral"]["outputs"][:-1]))
            ctx.ok(U.is_consistent_dataset(past, parameter_box=LinearVehicle.STEERING_RANGE), "hypotheses:kept", "route %s was kept although its data is inconsistent" % (r,))


def observation(ctx, d, route, v, target):
    """The last observation: what the vehicle did, explained in the frame of the route's next lane."""
    state = (v.position, v.heading, max(v.speed, 1e-9))

    def feats(index):
        lane = v.road.network.get_lane(index)
        s, r = W.ref_local(lane, state[0])
        h = W.ref_heading(lane, s + state[2] * v.PURSUIT_TAU)
        return np.array([W.wrap(h - state[1]) * v.LENGTH / state[2], -r * v.LENGTH / state[2] ** 2])
    if state[2] < .5:
        return
    got = np.asarray(d["lateral"]["features"][-1], dtype=float)
    want = feats(route[0])
    if abs(abs(want[0] * state[2] / v.LENGTH) - math.pi) < 1e-3 or W.circular_seam(v.road.network.get_lane(route[0]), v.position):
        return
    ctx.close(got, want, "hypotheses:features", "lateral features for route %s" % (route,), tol=1e-6)
    real = feats(target)
    if abs(abs(real[0] * state[2] / v.LENGTH) - math.pi) < 1e-3 or W.circular_seam(v.road.network.get_lane(target), v.position):
        return
    ctx.count("observed_outputs")
    ctx.count("foreign_outputs", int(tuple(route[0]) != target))
    ctx.close(float(d["lateral"]["outputs"][-1]), float(np.dot(v.STEERING_PARAMETERS, real)), "hypotheses:output",
              "the output recorded for route %s is not the steering of the vehicle towards %s" % (route, target), tol=1e-6)


def assumed(ctx, v):
    rng = ctx.rng
    k = int(rng.randint(len(v.data) + 1))
    before = [([tuple(x) for x in r], data_copy(d)) for r, d in v.data]
    state = W.vstate(v)
    m = v.assume_model_is_valid(k)
    ctx.count("assumed")
    r, d = before[min(k, len(before) - 1)]
    ctx.ok(isinstance(m, LinearVehicle) and m is not v, "assumed:type", "type %s" % type(m).__name__)
    ctx.ok([tuple(x) for x in m.route] == r and tuple(m.target_lane_index) == r[0], "assumed:route", "route %s target %s instead of %s" % (m.route, m.target_lane_index, r))
    ctx.ok(np.array_equal(m.position, v.position) and m.speed == v.speed and m.heading == v.heading, "assumed:state", "state of the copy")
    ctx.ok(set(m.data) == set(d) and all(same_data(m.data[x], d[x]) for x in d), "assumed:data", "data of the copy")
    for _ in range(int(rng.randint(5, 60))):
        m.act()
        m.step(1 / 15, ["partial", "predictor"][int(rng.randint(2))] if _ < 4 else "none")
    ctx.ok(W.vstate(v) == state, "assumed:alters-vehicle", "driving the copy changed the vehicle: %s" % W.first_diff(W.norm(state), W.norm(W.vstate(v))) if W.vstate(v) != state else "")
    after = [([tuple(x) for x in q], o) for q, o in v.data]
    ctx.ok([q for q, _ in after] == [q for q, _ in before] and all(set(o) == set(p) and all(same_data(o[x], p[x]) for x in p) for (_, o), (_, p) in zip(after, before)),
           "assumed:alters-hypotheses", "driving the copy changed the hypotheses of the vehicle")


def traffic(ctx, episodes, steps):
    rng = ctx.rng
    for _ in range(episodes):
        e = W.make("intersection", {"initial_vehicle_count": 6, "other_vehicles_type": "highway_env.vehicle.uncertainty.estimation.MultipleModelVehicle"}, int(rng.randint(1 << 30)))
        try:
            with ctx.guard(dict(env="intersection")):
                for s in range(steps):
                    _, _, done, _ = e.step(int(rng.choice([0, 1, 2])))
                    for v in e.road.vehicles:
                        if not isinstance(v, MultipleModelVehicle) or not v.data:
                            continue
                        names = [tuple(tuple(x) for x in r) for r, _ in v.data]
                        ctx.count("acts")
                        ctx.count("hypotheses_%d" % len(names))
                        ctx.ok(len(set(names)) == len(names) and all(names), "hypotheses:duplicate", "routes %s" % names)
                        if v.route:
                            ctx.count("own_route")
                            ctx.ok(any(follows(r, v.route) for r in names), "hypotheses:own", "the followed route %s is not among %s" % (v.route, names))
                    if done:
                        break
                ctx.seen([W.vstate(v) for v in e.road.vehicles])
        finally:
            e.close()


def units(tier):
    k = 10 if tier == "thorough" else 1
    us = [("regression-%d" % i, regression, dict(n_sets=500 * k)) for i in range(4)]
    us += [("drivers-%d" % i, drivers, dict(n=20 * k)) for i in range(2)]
    us += [("drives-%d" % i, drives, dict(n=8 * k, steps=150)) for i in range(6)]
    us += [("forks", forks, dict(n=12 * k, steps=100))]
    us += [("bookkeeping", bookkeeping, dict(n=1000 * k))]
    return us + [("traffic-%d" % i, traffic, dict(episodes=1 * k, steps=10)) for i in range(4)]
