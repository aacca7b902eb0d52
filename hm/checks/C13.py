"""Lane geometry against an independent model of the three lane kinds."""
import math

import numpy as np

from hm import world as W
from hm.world import StraightLane, SineLane, CircularLane

RULE = ("random straight, sinusoidal and circular lanes (both directions, any orientation, width, forbidden flag) and every lane of the "
        "environments' networks, queried at positions inside, around and beyond them, with and without known coordinates; a case is one "
        "lane and one position; distinct by lane parameters and position; predicates closer than 1e-6 to a threshold are skipped")
REQUIRED = {"straight": 3000, "sine": 3000, "circular": 3000, "env_lanes": 100, "on": 1500, "off": 1500, "reachable": 500, "unreachable": 500,
            "after_end": 500, "before_end": 500, "with_margin": 500, "forbidden": 200}
TH = 1e-6


def random_lane(rng):
    kind = rng.randint(3)
    kw = dict(width=float(rng.choice([4., 5., 3.2, 10.])), forbidden=bool(rng.rand() < .15))
    if kind < 2:
        a = rng.uniform(-200, 200, size=2)
        L, h = rng.uniform(5, 300), rng.uniform(-math.pi, math.pi)
        if rng.rand() < .2:
            h = float(rng.choice([0, math.pi / 2, math.pi, -math.pi / 2]))
        b = a + L * np.array([math.cos(h), math.sin(h)])
        if kind == 0:
            if rng.rand() < .1:
                return StraightLane([0, 0], [int(rng.randint(10, 100)), 0], **kw)
            return StraightLane(a, b, **kw)
        return SineLane(a, b, amplitude=float(rng.uniform(-6, 6)), pulsation=float(2 * math.pi / rng.uniform(30, 200)),
                        phase=float(rng.uniform(-4, 4)), **kw)
    start = rng.uniform(-2 * math.pi, 2 * math.pi)
    cw = bool(rng.rand() < .5)
    ext = rng.uniform(.1, 3.0)
    return CircularLane(rng.uniform(-100, 100, size=2), float(rng.uniform(6, 80)), float(start), float(start + (ext if cw else -ext)), clockwise=cw, **kw)


def probe(ctx, lane, n, label=None):
    rng = ctx.rng
    kind = W.lane_kind(lane)
    L, w = W.ref_length(lane), lane.width
    ctx.close(lane.length, L, "length", "lane length")
    for _ in range(n):
        s = float(rng.uniform(-12, L + 12)) if rng.rand() < .8 else float(rng.choice([0., L, -5., L + 5, L - 2.5]) + rng.choice([0, 1e-3, -1e-3]))
        r = float(rng.uniform(-3 * w, 3 * w)) if rng.rand() < .8 else float(rng.choice([0., w / 2, -w / 2, 2 * w, -2 * w]) + rng.choice([0, 1e-3, -1e-3]))
        scale = 1.0
        if kind == "circular":
            d = lane.direction
            if abs(s / lane.radius) > 0.98 * math.pi or lane.radius - d * r < .5:
                continue
            scale = lane.radius
        with ctx.guard(dict(lane=vars(lane), kind=kind, s=s, r=r, label=label)):
            p = np.asarray(lane.position(s, r), dtype=float)
            ctx.close(p, W.ref_position(lane, s, r), "position", "position(%s, %s)" % (s, r), tol=1e-8)
            s2, r2 = lane.local_coordinates(p)
            ctx.close([s2, r2], [s, r], "roundtrip", "coordinates -> position -> coordinates", tol=1e-6 * scale)
            # heading is the tangent of the centre line, positive lateral on the same side
            e = 1e-4
            t = np.asarray(lane.position(s + e, 0), dtype=float) - np.asarray(lane.position(s - e, 0), dtype=float)
            h = float(lane.heading_at(s))
            ctx.ok(abs(W.wrap(h - math.atan2(t[1], t[0]))) < 1e-5, "tangent", "heading %s, tangent %s" % (h, math.atan2(t[1], t[0])))
            ctx.ok(abs(W.wrap(h - W.ref_heading(lane, s))) < 1e-8, "heading", "heading_at")
            q = np.asarray(lane.position(s, 1.), dtype=float) - np.asarray(lane.position(s, 0.), dtype=float)
            ctx.ok(-math.sin(h) * q[0] + math.cos(h) * q[1] > 0, "side", "positive lateral offset on the wrong side")
            ctx.ok(abs(float(lane.width_at(s)) - w) < 1e-12, "width", "width_at")
            queries(ctx, lane, p, kind)
            ctx.seen(kind, s, r, L, w)
        # a position unrelated to the coordinates above
        if rng.rand() < .3:
            p = np.asarray(lane.position(float(rng.uniform(0, L)), 0.)) + rng.uniform(-40, 40, size=2)
            if kind == "circular":
                phi = W.wrap(math.atan2(p[1] - lane.center[1], p[0] - lane.center[0]) - lane.start_phase)
                if abs(abs(phi) - math.pi) < .02:
                    continue
            with ctx.guard(dict(lane=vars(lane), kind=kind, p=p, label=label)):
                c = lane.local_coordinates(p)
                ctx.close(np.asarray(c, dtype=float), W.ref_local(lane, p), "local-coordinates", "local_coordinates", tol=1e-7)
                if kind != "circular" or lane.radius - lane.direction * c[1] > 0:
                    ctx.close(np.asarray(lane.position(*c), dtype=float), p, "roundtrip-back", "position -> coordinates -> position", tol=1e-6)
                queries(ctx, lane, p, kind)
                ctx.seen(kind, p, L, w)


def queries(ctx, lane, p, kind):
    rng = ctx.rng
    s, r = W.ref_local(lane, p)
    L = W.ref_length(lane)
    ctx.count(kind)
    margin = 0. if rng.rand() < .5 else float(rng.uniform(-1, 3))
    on, m = W.ref_on_lane(lane, p, margin)
    # the coordinates may be passed by the caller
    known = [{}, dict(longitudinal=s, lateral=r), dict(longitudinal=s), dict(lateral=r)]
    for kw in known:
        if m > TH:
            ctx.ok(bool(lane.on_lane(p, margin=margin, **kw)) == on, "on-lane", "on_lane(margin=%s, %s) at s=%s r=%s of length %s width %s is not %s"
                   % (margin, kw, s, r, L, lane.width, on))
    if m > TH:
        ctx.count("on" if on else "off")
        ctx.count("with_margin", int(margin != 0))
        if margin == 0:
            ctx.ok(bool(lane.on_lane(p)) == on, "on-lane", "on_lane default margin")
            ctx.ok(bool(lane.on_lane(p, s, r)) == on, "on-lane", "on_lane positional coordinates")
    re, m = W.ref_reachable(lane, p)
    if m > TH:
        ctx.ok(bool(lane.is_reachable_from(p)) == re, "reachable", "is_reachable_from at s=%s r=%s of length %s width %s is not %s" % (s, r, L, lane.width, re))
        ctx.count("reachable" if re else "unreachable")
        ctx.count("forbidden", int(lane.forbidden))
    if abs(s - (L - 2.5)) > TH:
        end = s > L - 2.5
        ctx.ok(bool(lane.after_end(p)) == end, "after-end", "after_end at s=%s of %s is not %s" % (s, L, end))
        ctx.ok(bool(lane.after_end(p, s, r)) == end, "after-end", "after_end with known coordinates")
        ctx.count("after_end" if end else "before_end")
    ctx.close(float(lane.distance(p)), W.ref_lane_distance(lane, p), "distance", "distance", tol=1e-7)
    h = float(rng.uniform(-10, 10))
    ctx.close(float(lane.distance_with_heading(p, h)), W.ref_lane_distance(lane, p, h), "distance-heading", "distance_with_heading", tol=1e-7)
    ctx.close(float(lane.distance_with_heading(p, None)), W.ref_lane_distance(lane, p), "distance-heading", "distance_with_heading without heading", tol=1e-7)
    k = float(rng.uniform(0, 5))
    d0 = W.ref_lane_distance(lane, p)
    ctx.close(float(lane.distance_with_heading(p, h, k)), d0 + k * (W.ref_lane_distance(lane, p, h) - d0), "distance-weight", "heading weight", tol=1e-7)


def randoms(ctx, count):
    for k in range(count):
        if ctx.out_of_time():
            break
        lane = random_lane(ctx.rng)
        probe(ctx, lane, 12)
        if k < 2:
            ctx.sample(lane=vars(lane))


def env_lanes(ctx, name, cfg=None):
    env = W.make(name, cfg or {}, seed=int(ctx.rng.randint(1 << 30)))
    for idx in W.all_indexes(env.road.network):
        lane = W.lane_of(env.road.network, idx)
        if W.lane_kind(lane) == "other":
            continue
        ctx.count("env_lanes")
        probe(ctx, lane, 15, label=[name, idx])


def units(tier):
    k = 10 if tier == "thorough" else 1
    out = [("random-%d" % i, randoms, dict(count=250)) for i in range(8 * k)]
    for name in ("highway", "merge", "roundabout", "intersection", "parking", "summon", "two-way", "lane-keeping"):
        for i in range(k):
            out.append(("env-%s-%d" % (name, i), env_lanes, dict(name=name)))
    return out
