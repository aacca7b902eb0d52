"""Neighbour queries against brute force over the scene with reference lane geometry."""
import math

import numpy as np

from hm import world as W
from hm.world import Road, Vehicle, IDMVehicle, Obstacle, Landmark

RULE = ("random scenes (0-12 vehicles, obstacles and landmarks) on random networks and on the environments' roads, and the live scenes of "
        "episodes; queries for every vehicle on every nearby lane, and for distances, counts and see-behind; a case is one query with at "
        "least one other body in range; distinct by relative poses and arguments; scenes within 1e-6 of a threshold are skipped")
REQUIRED = {"front_found": 1000, "front_none": 500, "rear_found": 1000, "rear_none": 500, "other_lane": 1500, "obstacle_neighbours": 100,
            "landmarks_present": 300, "close_queries": 3000, "close_truncated": 300, "close_behind_cut": 300, "count_one": 200, "live_scenes": 100}
TH = 1e-6


class Long(Vehicle):
    LENGTH = 9.0


class Short(IDMVehicle):
    LENGTH = 2.5


def circular_seam(lane, p):
    if W.lane_kind(lane) != "circular":
        return False
    phi = W.wrap(math.atan2(p[1] - lane.center[1], p[0] - lane.center[0]) - lane.start_phase)
    return abs(abs(phi) - math.pi) < 1e-4


def scene(rng):
    r = rng.rand()
    if r < .4:
        net = W.straight_net(lanes=rng.randint(1, 5), length=float(rng.uniform(50, 400)), angle=float(rng.uniform(-3, 3)))
    elif r < .6:
        net = W.chain_net(rng, lanes=rng.randint(1, 4))
    else:
        net = W.random_env_roads(rng)[1].road.network
    road = Road(net, np_random=np.random.RandomState(rng.randint(1 << 30)))
    idx = W.all_indexes(net)
    home = [idx[rng.randint(len(idx))] for _ in range(rng.randint(1, 4))]

    def pose():
        lane = W.lane_of(net, home[rng.randint(len(home))])
        s = float(rng.uniform(-8, min(lane.length, 200) + 8))
        p = np.asarray(lane.position(s, float(rng.normal() * rng.choice([.2, 1.5, 4]))))
        return p, float(lane.heading_at(s)) + float(rng.normal() * .2)

    for _ in range(rng.randint(1, 13)):
        p, h = pose()
        road.vehicles.append([Vehicle, IDMVehicle, Long, Short][rng.choice(4, p=[.3, .4, .15, .15])](road, p, h, float(rng.uniform(-5, 30))))
    if rng.rand() < .2 and len(road.vehicles) > 2:
        # exact alignment
        a, b = road.vehicles[0], road.vehicles[1]
        b.position = np.array(a.position)
    for _ in range(rng.randint(0, 4)):
        p, h = pose()
        road.objects.append([Obstacle, Landmark][rng.randint(2)](road, p, heading=h))
    if rng.rand() < .4:
        # bodies of unusual sizes: being on a lane is about the centre
        for o in road.objects + road.vehicles:
            if rng.rand() < .5:
                o.LENGTH, o.WIDTH = float(rng.uniform(1, 15)), float(rng.choice([.5, 1., 3., 4.5]))
    for o in road.objects + road.vehicles:
        # states that must not matter
        if rng.rand() < .2:
            setattr(o, "hit" if o in road.objects else "crashed", True)
    return road


def check_neighbours(ctx, road, v, idx, default=False):
    lane = W.lane_of(road.network, idx)
    others = [o for o in list(road.vehicles) + list(road.objects) if o is not v and not isinstance(o, Landmark)]
    if any(circular_seam(lane, o.position) for o in others + [v]):
        return
    s0 = W.ref_local(lane, v.position)[0]
    cand, bad = [], False
    for o in others:
        on, m = W.ref_on_lane(lane, o.position, 1.)
        bad = bad or m < TH
        if on:
            s = W.ref_local(lane, o.position)[0]
            bad = bad or 0 < abs(s - s0) < 1e-7
            cand.append((s, o))
    if bad:
        return
    front, rear = road.neighbour_vehicles(v) if default else road.neighbour_vehicles(v, idx)
    ahead = [(s, o) for s, o in cand if s >= s0]
    behind = [(s, o) for s, o in cand if s < s0]
    if any(0 <= s0 - s < 1e-7 or 0 <= s - s0 < 1e-7 for s, _ in cand) and not any(np.array_equal(o.position, v.position) for _, o in cand):
        return
    with ctx.guard(dict(v=W.vstate(v), lane=idx, scene=[W.vstate(o) for o in others], front=str(front), rear=str(rear))):
        if ahead:
            ctx.count("front_found")
            best = min(s for s, _ in ahead)
            if any(np.array_equal(o.position, v.position) for _, o in cand):
                ctx.ok(front is not None, "front-missing", "vehicle at the same position is not in front")
            else:
                ctx.ok(any(o is front and s <= best + 1e-7 for s, o in ahead), "wrong-front", "nearest ahead is at %s, answered %s" % (best - s0, front))
                ctx.count("obstacle_neighbours", int(isinstance(front, Obstacle)))
        else:
            ctx.count("front_none")
            ctx.ok(front is None, "spurious-front", "nothing ahead on the lane, answered %s" % front)
        if behind:
            if not any(np.array_equal(o.position, v.position) for _, o in cand):
                ctx.count("rear_found")
                best = max(s for s, _ in behind)
                ctx.ok(any(o is rear and s >= best - 1e-7 for s, o in behind), "wrong-rear", "nearest behind is at %s, answered %s" % (best - s0, rear))
        elif not any(np.array_equal(o.position, v.position) for _, o in cand):
            ctx.count("rear_none")
            ctx.ok(rear is None, "spurious-rear", "nothing behind on the lane, answered %s" % rear)
        ctx.ok(front is not v and rear is not v and not isinstance(front, Landmark) and not isinstance(rear, Landmark), "bad-neighbour", "")
        if not default:
            ctx.count("other_lane")
        ctx.count("landmarks_present", int(any(isinstance(o, Landmark) for o in road.objects)))
        if cand:
            ctx.seen(idx, [o.position - v.position for _, o in cand])


def check_close(ctx, road, v, distance, count, behind):
    rng = ctx.rng
    lane = W.lane_of(road.network, v.lane_index)
    others = [o for o in road.vehicles if o is not v]
    if any(circular_seam(lane, o.position) for o in others + [v]):
        return
    s0 = W.ref_local(lane, v.position)[0]
    exp, bad = [], False
    for o in others:
        d = float(np.hypot(*(o.position - v.position)))
        gap = W.ref_local(lane, o.position)[0] - s0
        bad = bad or abs(d - distance) < TH or abs(gap + 2 * v.LENGTH) < TH
        if d < distance and (behind or gap > -2 * v.LENGTH):
            exp.append((abs(gap), o))
        elif d < distance:
            ctx.count("close_behind_cut")
    if bad:
        return
    kw = dict(count=count, see_behind=behind)
    if rng.rand() < .2 and behind:
        kw.pop("see_behind")
    if count is None and rng.rand() < .5:
        kw.pop("count")
    got = road.close_vehicles_to(v, distance, **kw)
    with ctx.guard(dict(v=W.vstate(v), distance=distance, count=count, behind=behind, scene=[W.vstate(o) for o in others])):
        n = len(exp) if count is None else min(count, len(exp))
        gaps = sorted(g for g, _ in exp)
        ids = {id(o): g for g, o in exp}
        ctx.ok(len(got) == n, "close-number", "%d vehicles instead of %d (count=%s)" % (len(got), n, count))
        ctx.ok(all(id(o) in ids for o in got) and len({id(o) for o in got}) == len(got), "close-wrong", "a vehicle out of range or twice")
        if all(id(o) in ids for o in got):
            g = [ids[id(o)] for o in got]
            ctx.ok(all(abs(x - y) < 1e-6 for x, y in zip(g, gaps)), "close-order", "gaps %s instead of %s" % (g[:6], gaps[:6]))
        ctx.count("close_queries")
        ctx.count("close_truncated", int(count is not None and count < len(exp)))
        ctx.count("count_one", int(count == 1 and len(exp) > 1))
        if exp:
            ctx.seen("close", distance, count or -1, behind, [o.position - v.position for _, o in exp])


def check_gaps(ctx, road, v, o):
    lane = W.lane_of(road.network, v.lane_index)
    if circular_seam(lane, v.position) or circular_seam(lane, o.position):
        return
    exp = W.ref_local(lane, o.position)[0] - W.ref_local(lane, v.position)[0]
    ctx.close(float(v.lane_distance_to(o)), exp, "lane-distance", "signed lane gap", tol=1e-6)
    ctx.close(float(v.front_distance_to(o)), math.cos(v.heading) * (o.position[0] - v.position[0]) + math.sin(v.heading) * (o.position[1] - v.position[1]),
              "front-distance", "distance ahead", tol=1e-6)


def all_queries(ctx, road):
    rng = ctx.rng
    idx = W.all_indexes(road.network)
    for v in list(road.vehicles):
        check_neighbours(ctx, road, v, tuple(v.lane_index), default=True)
        near = [i for i in idx if W.ref_lane_distance(W.lane_of(road.network, i), v.position) < 15] or idx
        for _ in range(2):
            check_neighbours(ctx, road, v, near[rng.randint(len(near))])
        for _ in range(2):
            count = None if rng.rand() < .4 else int(rng.choice([0, 1, 1, 2, 3, 5, 8]))
            check_close(ctx, road, v, float(rng.choice([10., 30., 80., 200.])), count, bool(rng.rand() < .5))
        o = road.vehicles[rng.randint(len(road.vehicles))]
        if o is not v:
            check_gaps(ctx, road, v, o)


def scenes(ctx, count):
    for k in range(count):
        if ctx.out_of_time():
            break
        with ctx.guard(dict(scene=k)):
            all_queries(ctx, scene(ctx.rng))


def live(ctx, name, count, cfg=None):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        with ctx.guard(dict(env=name)):
            env = W.make(name, cfg, int(rng.randint(1 << 30)))
            pol = W.Policy(rng)
            for t in range(6):
                _, _, done, _ = env.step(pol(env.action_space))
                ctx.count("live_scenes")
                all_queries(ctx, env.road)
                if done:
                    break


def units(tier):
    k = 8 if tier == "thorough" else 1
    out = [("scenes-%d" % i, scenes, dict(count=60)) for i in range(6 * k)]
    for name in ("highway", "merge", "roundabout", "intersection", "two-way", "summon"):
        for i in range(k):
            out.append(("live-%s-%d" % (name, i), live, dict(name=name, count=4)))
    return out
