"""Rendering: differential runs with and without it, and frames compared with the scene pixel by pixel at sampled points."""
import copy
import math

import numpy as np
import pygame
from gym import spaces

from hm import world as W
from hm.world import Vehicle, IDMVehicle, LinearVehicle, MDPVehicle, ControlledVehicle, Obstacle, Landmark
from highway_env.road.lane import LineType, StraightLane, SineLane, CircularLane
from highway_env.road.road import RoadNetwork
from highway_env.vehicle.graphics import VehicleGraphics as VG
from highway_env.road.graphics import RoadObjectGraphics as OG, WorldSurface
from highway_env.envs.common.graphics import EnvViewer

RULE = ("pairs of runs of the same environment, seed and actions, with and without rendering activities (frames at random moments, histories, agent displays and planned sequences, automatic rendering with "
        "or without callback, closing and reopening, on and off screen), and frames of environments with random screen sizes, scales and centring and hostile traffic poses; a case is a compared step or frame; "
        "distinct by content; sampled points closer than 2 px to a border or covered by a later drawn body are skipped")
REQUIRED = {"fresh_frames": 200, "fresh_callbacks": 80, "fresh_resets": 20, "compared_steps": 400, "rendered_frames": 300, "histories": 25, "sequences": 50, "agent_display": 40, "auto_callbacks": 100, "reopened": 25, "onscreen": 10,
            "frames": 250, "body_points": 3000, "ego_points": 500, "crashed_points": 200, "linear_points": 200, "idm_points": 60, "plain_points": 200, "object_points": 300, "oblong_points": 300, "background_points": 4000,
            "centre": 200, "line_points": 2000, "history_frames": 2, "stripe_points": 300, "history_states": 500, "ghosts": 50, "ghost_pixels": 300, "unmarked_points": 250, "one_sided": 100, "gap_points": 60, "corner_points": 100, "slightly_turned": 20}


def behave(env, rng, ctx, auto):
    """some rendering activity between two steps"""
    k = rng.randint(6)
    if k == 0:
        return
    if k == 1 and env.viewer is not None:
        ctx.count("reopened")
        done = env.done
        env.close()
        env.done = done  # close() ends the episode by itself
    img = env.render("rgb_array")
    if img is not None:
        ctx.count("rendered_frames")
        if k == 2:
            env.render("rgb_array")
    if k == 3 and env.viewer is not None:
        ctx.count("agent_display")
        env.viewer.set_agent_display(lambda agent_surface, sim_surface: agent_surface.fill((10, 20, 30)))
    if k >= 4 and env.viewer is not None and isinstance(env.action_space, spaces.Discrete):
        n = int(rng.randint(0, 6))
        ctx.count("sequences", int(n > 1))
        acts = [int(a) for a in rng.randint(env.action_space.n, size=n)]
        env.viewer.set_agent_action_sequence(acts)
        if n > 1:  # what is displayed is the prediction for these very actions
            pf, sf = env.config["policy_frequency"], env.config["simulation_frequency"]
            exp = env.vehicle.predict_trajectory([env.action_type.actions[a] for a in acts], 1 / pf, 1 / 3 / pf, 1 / sf)
            got = env.viewer.vehicle_trajectory
            ctx.ok(len(got) == len(exp) and all(np.allclose(a.position, b.position, atol=1e-6) for a, b in zip(got, exp)), "sequence",
                   "the displayed trajectory is not the one of the planned actions %s" % acts)
    if auto is not None:
        env.automatic_rendering_callback = auto


def play(ctx, name, cfg, seed, actions, render_rng=None):
    env = W.make(name, cfg, seed, reset=False)
    out = []
    obs = env.reset()
    out.append(("reset", W.norm(obs), W.flat(W.snap(env))))
    calls = [0]

    def auto():
        calls[0] += 1
        env.render("rgb_array")

    auto = auto if render_rng is not None and render_rng.rand() < .4 else None
    for t, a in enumerate(actions):
        if render_rng is not None:
            before = W.flat(W.snap(env))
            behave(env, render_rng, ctx, auto)
            d = W.first_diff(before, W.flat(W.snap(env)))
            ctx.ok(d is None, "render-changes-state", "rendering changed the scene: %s" % d)
        obs, rew, done, info = env.step(copy.deepcopy(a))
        out.append((t, W.norm(obs), W.norm(rew), W.norm(done), W.norm({k: v for k, v in info.items() if k != "action"}), W.flat(W.snap(env))))
        if np.all(done):
            break
    ctx.count("auto_callbacks", calls[0])
    env.close()
    return out


def differential(ctx, name, count, steps):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg = W.random_env_config(rng, name)
        cfg.pop("show_trajectories", None)
        if rng.rand() < .15:
            cfg["simulation_frequency"], cfg["policy_frequency"] = int(rng.choice([2, 4])), 1
        seed, aseed = int(rng.randint(1 << 30)), int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            probe = W.make(name, cfg, seed)
            pol = W.Policy(np.random.RandomState(aseed))
            actions = [pol(probe.action_space) for _ in range(steps)]
            ref = play(ctx, name, cfg, seed, actions)
            loud = copy.deepcopy(cfg)
            loud["show_trajectories"] = bool(rng.rand() < .6)
            loud["offscreen_rendering"] = bool(rng.rand() < .7)
            loud["render_agent"] = bool(rng.rand() < .7)
            ctx.count("histories", int(loud["show_trajectories"]))
            ctx.count("onscreen", int(not loud["offscreen_rendering"]))
            got = play(ctx, name, loud, seed, actions, np.random.RandomState(aseed + 1))
            ctx.count("compared_steps", len(ref))
            d = W.first_diff(ref, got)
            ctx.ok(d is None, "influence", "rendering (%s) changed the run: %s" % (loud, d))
            ctx.seen(name, repr(sorted(map(str, cfg.items()))), ref[-1][1])
            if e == 0:
                ctx.sample(env=name, config=loud, steps=len(ref))


# ------------------------------------------------------------------------------------------------- freshness
def drawn(env):
    """What a viewer made this moment shows."""
    v = EnvViewer(env)
    v.sim_surface.scaling, v.sim_surface.centering_position = env.viewer.sim_surface.scaling, list(env.viewer.sim_surface.centering_position)
    v.vehicle_trajectory = env.viewer.vehicle_trajectory
    v.display()
    return v.get_image().copy()


def freshness(ctx, name, count):
    """Whatever was rendered before, in whichever mode, a frame asked for shows the present scene: after steps, resets and inside the rendering callback."""
    rng = ctx.rng
    for e in range(count):
        cfg = dict(W.random_env_config(rng, name), offscreen_rendering=True, screen_width=300, screen_height=150)
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed)
            pol = W.Policy(rng)
            env.render("rgb_array")

            def look(where, mode):
                img = env.render(mode)
                img = env.viewer.get_image() if img is None else img
                ctx.count("fresh_frames")
                ctx.ok(np.array_equal(img, drawn(env)), "stale", "the frame rendered %s (%s) is not that of the present scene" % (where, mode))

            def callback():
                ctx.count("fresh_callbacks")
                look("in the callback", "human" if human and len(done) % 3 == 0 else "rgb_array")
                done.append(1)

            for t in range(6):
                r, done, human = rng.rand(), [], rng.rand() < .5
                mode = "human" if rng.rand() < .6 else "rgb_array"
                if r < .75:
                    env.automatic_rendering_callback = callback if rng.rand() < .4 else None
                    over = np.all(env.step(pol(env.action_space))[2])
                    if not over and rng.rand() < .4:
                        over = np.all(env.step(pol(env.action_space))[2])
                    env.automatic_rendering_callback = None
                    look("after a step", mode)
                    if not over:
                        continue
                env.reset()
                ctx.count("fresh_resets")
                look("after a reset", mode)
            ctx.seen("fresh", name, seed)
            env.close()


# ------------------------------------------------------------------------------------------------- frames
def expected_color(v):
    if getattr(v, "color", None):
        return tuple(v.color), "color"
    if v.crashed:
        return VG.RED, "crashed"
    if isinstance(v, LinearVehicle):
        return VG.YELLOW, "linear"
    if isinstance(v, IDMVehicle):
        return VG.BLUE, "idm"
    if isinstance(v, MDPVehicle):
        return VG.GREEN, "ego"
    return VG.DEFAULT_COLOR, "plain"


def heading(o):
    return float(np.squeeze(o.heading))


def local(o, p):
    h = heading(o)
    dx, dy = p[0] - float(o.position[0]), p[1] - float(o.position[1])
    return dx * math.cos(h) + dy * math.sin(h), -dx * math.sin(h) + dy * math.cos(h)


def near(o, p, margin):
    a, b = local(o, p)
    return abs(a) < o.LENGTH / 2 + 1.5 + margin and abs(b) < o.WIDTH / 2 + .5 + margin


def frame(ctx, env, rng):
    img = np.asarray(env.render("rgb_array"))
    h, w = env.config["screen_height"], env.config["screen_width"]
    sc = env.config["scaling"]
    ctx.count("frames")
    if not ctx.ok(img.shape == (h, w, 3), "frame-size", "frame of shape %s on a %sx%s screen" % (img.shape, w, h)):
        return
    ego = env.vehicle
    c = env.config["centering_position"]
    to_px = lambda p: ((p[0] - float(ego.position[0])) * sc + c[0] * w, (p[1] - float(ego.position[1])) * sc + c[1] * h)
    to_m = lambda q: ((q[0] - c[0] * w) / sc + float(ego.position[0]), (q[1] - c[1] * h) / sc + float(ego.position[1]))
    margin = 2.5 / sc
    vs = list(env.road.vehicles)
    ctx.seen(img[::5, ::5])

    def inside(q):
        return 2 <= q[0] < w - 2 and 2 <= q[1] < h - 2

    def pixel(q):
        return tuple(int(x) for x in img[int(math.floor(q[1])), int(math.floor(q[0]))])

    ctx.count("centre", int(inside(to_px(ego.position))))
    for i, v in enumerate(vs):
        color, kind = expected_color(v)
        q = to_px(v.position)
        if not (-48 < q[0] < w + 48 and -48 < q[1] < h + 48):
            continue    # a body whose centre is further outside is not drawn, though at high zoom its end may reach the frame
        far_a, far_b = .5 - 4.6 / (v.LENGTH * sc), .5 - 4.6 / (v.WIDTH * sc)
        corners = [(far_a * i, far_b * j) for i in (-1, 1) for j in (-1, 1)] if far_a > .4 and far_b > .3 and not .01 < abs(heading(v)) < .05 and type(v) not in (Vehicle, W.BicycleVehicle) else []  # (drawn with wheels)
        for a, b in [(0, 0), (.3, 0), (-.3, 0), (.3, .2), (.3, -.2), (-.3, .2), (-.3, -.2), (.35, 0), (-.35, 0)] + corners:
            hd = heading(v)
            x = float(v.position[0]) + a * v.LENGTH * math.cos(hd) - b * v.WIDTH * math.sin(hd)
            y = float(v.position[1]) + a * v.LENGTH * math.sin(hd) + b * v.WIDTH * math.cos(hd)
            q = to_px((x, y))
            if not inside(q) or any(near(o, (x, y), margin) for o in vs[i + 1:]):
                continue
            if (.5 - abs(a)) * v.LENGTH * sc < 4.5 or (.5 - abs(b)) * v.WIDTH * sc < 4.5:
                continue
            ctx.count("body_points")
            ctx.count(kind + "_points")
            ctx.count("corner_points", int(abs(a) == far_a))
            ctx.count("slightly_turned", int(abs(a) == far_a and .1 < abs(hd) < .4))
            got = pixel(q)
            if got != tuple(color[:3]):
                ctx.fail("body", "%s vehicle at %s heading %.3f: the pixel of its point (%.2f, %.2f) is %s instead of %s" % (kind, v.position, hd, a, b, got, color), state=W.vstate(v), scaling=sc)
                return
    for o in env.road.objects:
        color = (OG.RED if o.hit else OG.YELLOW) if isinstance(o, Obstacle) else (OG.GREEN if o.hit else OG.BLUE)
        for a, b in ((0, 0), (.25, .1), (-.25, -.1), (.3, .3), (-.3, -.3), (.4, -.35), (-.4, .35)):
            hd = heading(o)
            x = float(o.position[0]) + a * o.LENGTH * math.cos(hd) - b * o.WIDTH * math.sin(hd)
            y = float(o.position[1]) + a * o.LENGTH * math.sin(hd) + b * o.WIDTH * math.cos(hd)
            q = to_px((x, y))
            if inside(q) and not any(near(v, (x, y), margin) for v in vs) and (.5 - abs(a)) * o.LENGTH * sc > 4.5 and (.5 - abs(b)) * o.WIDTH * sc > 4.5 \
                    and not any(u is not o and near(u, (x, y), margin) for u in env.road.objects):
                ctx.count("object_points")
                ctx.count("oblong_points", int(abs(o.LENGTH - o.WIDTH) > .1))
                got = pixel(q)
                if not ctx.ok(got == tuple(color[:3]), "object", "%s at %s: pixel %s instead of %s" % (type(o).__name__, o.position, got, color)):
                    return
    shown = [VG.RED, VG.GREEN, VG.BLUE, VG.YELLOW, VG.PURPLE]
    everything = vs + list(env.road.objects)
    for _ in range(40):
        q = (float(rng.randint(2, w - 2)) + .5, float(rng.randint(2, h - 2)) + .5)
        p = to_m(q)
        if any(near(o, p, margin) for o in everything):
            continue
        ctx.count("background_points")
        got = pixel(q)
        if got in shown:
            ctx.fail("phantom", "pixel %s far from every body shows %s" % (q, got))
            return
    for idx in W.all_indexes(env.road.network):
        lane = W.lane_of(env.road.network, idx)
        if W.lane_kind(lane) == "other":
            continue
        L = W.ref_length(lane)
        for side in range(2):
            if lane.line_types[side] not in (LineType.CONTINUOUS_LINE, LineType.CONTINUOUS) or L <= 2:
                continue
            if lane.line_types[side] == LineType.CONTINUOUS_LINE and W.lane_kind(lane) != "straight":
                continue
            for s in rng.uniform(1, max(L - 3, 1.5), size=6):
                p = W.ref_position(lane, s, (side - .5) * lane.width)
                q = to_px(p)
                r = 0.45 * sc * (W.lane_kind(lane) != "straight") + 3
                if not (r + 2 < q[0] < w - r - 2 and r + 2 < q[1] < h - r - 2) or any(near(o, p, margin + r / sc) for o in everything):
                    continue
                ctx.count("line_points")
                box = img[int(q[1] - r):int(q[1] + r) + 1, int(q[0] - r):int(q[0] + r) + 1]
                if not np.any(np.all(box == np.array(WorldSurface.WHITE), axis=-1)):
                    ctx.fail("line", "no marking along the %s side of lane %s at %s, %.2f m along it" % (["left", "right"][side], idx, p, s), scaling=sc, screen=[w, h], centre=c, ego=W.vstate(ego))
                    return
    stripes(ctx, env, img, rng, everything, margin)
    blanks(ctx, env, img, rng, everything, margin)


def stripes(ctx, env, img, rng, everything, margin):
    """dashed markings: white along the lane's own border within a dash spacing, nothing in the middle of a lane"""
    h, w = env.config["screen_height"], env.config["screen_width"]
    sc, c, ego = env.config["scaling"], env.config["centering_position"], env.vehicle
    white = np.array(WorldSurface.WHITE)
    for idx in W.all_indexes(env.road.network):
        lane = W.lane_of(env.road.network, idx)
        L = W.ref_length(lane)
        if W.lane_kind(lane) == "other" or L < 15:
            continue
        for side in range(2):
            if lane.line_types[side] != LineType.STRIPED:
                continue
            for s in rng.uniform(1, L - 9, size=6):
                pts = [W.ref_position(lane, s + d, (side - .5) * lane.width) for d in np.arange(0, 5.5, .25)]
                r = int(max(.45 * sc * (W.lane_kind(lane) != "straight"), 0)) + 2
                qs = [((p[0] - float(ego.position[0])) * sc + c[0] * w, (p[1] - float(ego.position[1])) * sc + c[1] * h) for p in pts]
                if any(not (r + 2 < q[0] < w - r - 2 and r + 2 < q[1] < h - r - 2) for q in qs) or any(near(o, p, margin + r / sc) for o in everything for p in pts):
                    continue
                ctx.count("stripe_points")
                hit = any(np.any(np.all(img[int(q[1] - r):int(q[1] + r) + 1, int(q[0] - r):int(q[0] + r) + 1] == white, axis=-1)) for q in qs)
                if not hit:
                    ctx.fail("stripe", "no dash along the %s side of lane %s after %s m" % (["left", "right"][side], idx, s))
                    return


def marked_near(net, p, tol, but=None):
    """is any marking (other than side `but` of a lane) drawn within tol of p?"""
    for idx in W.all_indexes(net):
        lane = W.lane_of(net, idx)
        if W.lane_kind(lane) == "other":
            return True
        s, r = W.ref_local(lane, p)
        L = W.ref_length(lane)
        if W.lane_kind(lane) == "circular":
            if abs(math.hypot(p[0] - lane.center[0], p[1] - lane.center[1]) - lane.radius) < lane.width / 2 + tol + .5 and (abs(abs(r) - lane.width / 2) < tol + .5):
                for side in range(2):
                    if lane.line_types[side] != LineType.NONE and (lane, side) != but and abs(r - (side - .5) * lane.width) < tol + .5:
                        return True
            continue
        if not -tol - 1 < s < L + tol + 1:
            continue
        slack = tol + (0 if W.lane_kind(lane) == "straight" else .6)
        for side in range(2):
            if lane.line_types[side] != LineType.NONE and (lane, side) != but and abs(r - (side - .5) * lane.width) < slack:
                return True
    return False


def blanks(ctx, env, img, rng, everything, margin):
    """sides without a marking show none, and dashed ones have gaps"""
    h, w = env.config["screen_height"], env.config["screen_width"]
    sc, c, ego = env.config["scaling"], env.config["centering_position"], env.vehicle
    net = env.road.network
    white = np.array(WorldSurface.WHITE)
    tol = .3 + 3 / sc
    for idx in W.all_indexes(net):
        lane = W.lane_of(net, idx)
        L = W.ref_length(lane)
        if W.lane_kind(lane) == "other" or L < 8:
            continue
        for side in range(2):
            t = lane.line_types[side]
            if t not in (LineType.NONE, LineType.STRIPED):
                continue
            for s in rng.uniform(1, L - 6.5, size=5):
                pts = [W.ref_position(lane, s + d, (side - .5) * lane.width) for d in ([0] if t == LineType.NONE else np.arange(0, 5.5, .25))]
                qs = [((p[0] - float(ego.position[0])) * sc + c[0] * w, (p[1] - float(ego.position[1])) * sc + c[1] * h) for p in pts]
                if any(not (3 < q[0] < w - 3 and 3 < q[1] < h - 3) for q in qs) or any(near(o, p, margin) for o in everything for p in pts):
                    continue
                if any(marked_near(net, p, tol, (lane, side)) for p in pts[::4]):
                    continue
                lit = [bool(np.all(img[int(q[1]), int(q[0])] == white)) for q in qs]
                ctx.count("unmarked_points" if t == LineType.NONE else "gap_points")
                ctx.count("one_sided", int(t == LineType.NONE and lane.line_types[1 - side] != LineType.NONE))
                if all(lit):
                    ctx.fail("unmarked", "%s side of lane %s, %s, is marked along %.1f m at %s" % (["left", "right"][side], idx, "without marking" if t == LineType.NONE else "dashed", 0 if t == LineType.NONE else 5.25, pts[0]))
                    return


def markings(ctx, count):
    """lanes of every kind with every pair of markings"""
    rng = ctx.rng
    types = [LineType.NONE, LineType.STRIPED, LineType.CONTINUOUS, LineType.CONTINUOUS_LINE]
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg = dict(offscreen_rendering=True, screen_width=int(rng.randint(84, 600)), screen_height=int(rng.randint(84, 500)), scaling=float(rng.choice([4., 5.5, 7.15, 10., 20., 30.])),
                   centering_position=[float(rng.uniform(.2, .8)), float(rng.uniform(.2, .8))], vehicles_count=0)
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(seed=seed, config=cfg)):
            env = W.make("highway", cfg, seed)
            for _ in range(4):
                net = RoadNetwork()
                a = float(rng.uniform(-math.pi, math.pi))
                ux, uy = math.cos(a), math.sin(a)
                for k in range(-2, 3):
                    y, half = 12. * k + rng.uniform(-1, 1), rng.uniform(20, 120)
                    p, q = [[d * ux - y * uy, d * uy + y * ux] for d in (-half, half)]
                    lt = [types[rng.randint(4)], types[rng.randint(4)]]
                    width = float(rng.uniform(3, 5))
                    if k == 2 and rng.rand() < .5:   # a ring alone in the space of the others
                        net = RoadNetwork()
                        lt = [types[rng.randint(3)], types[rng.randint(3)]]
                        start = float(rng.uniform(-4, 4))
                        ring = CircularLane(rng.uniform(-20, 20, size=2), float(rng.uniform(12, 30)), start, start + float(rng.uniform(.5, 5)) * (1 if rng.rand() < .5 else -1), width=width, line_types=lt)
                        ring_cw = ring.end_phase > ring.start_phase
                        net.add_lane("r", "s", CircularLane(ring.center, ring.radius, ring.start_phase, ring.end_phase, clockwise=ring_cw, width=width, line_types=lt))
                        break
                    if rng.rand() < .25:
                        lt = [LineType.CONTINUOUS if t == LineType.CONTINUOUS_LINE else t for t in lt]
                        lane = SineLane(p, q, float(rng.uniform(.5, 1.5)), float(rng.uniform(.02, .1)), 0., width=width, line_types=lt)
                    else:
                        lane = StraightLane(p, q, width=width, line_types=lt)
                    net.add_lane("n%d" % k, "m%d" % k, lane)
                env.road.network = net
                env.vehicle.position = rng.uniform(-15, 15, size=2)
                env.vehicle.heading = float(rng.uniform(-4, 4))
                env.should_update_rendering = True
                frame(ctx, env, rng)
            env.close()


def history(ctx, name, count):
    """the recorded past of every vehicle, and where it is drawn"""
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg = W.random_env_config(rng, name)
        cfg.update(offscreen_rendering=True, show_trajectories=True, screen_width=600, screen_height=300, scaling=float(rng.choice([4., 5.5])), centering_position=[.6, .5])
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed)
            # what was recorded while the scene was made
            past = {id(v): [v] + [(float(x.position[0]), float(x.position[1]), float(np.squeeze(x.heading))) for x in v.history] for v in env.road.vehicles}

            def record(dt):
                for v in env.road.vehicles:
                    past.setdefault(id(v), [v]).insert(1, (float(v.position[0]), float(v.position[1]), float(np.squeeze(v.heading))))

            W.tap(env.road, after_step=record)
            pol = W.Policy(rng)
            over = 0
            if rng.rand() < .4:                                       # wrecks have a past as well
                env.road.vehicles[rng.randint(len(env.road.vehicles))].crashed = True
            for t in range(4):
                done = env.step(pol(env.action_space))[2]
                for v in env.road.vehicles:
                    ctx.count("wreck_histories", int(v.crashed))
                    exp = past.setdefault(id(v), [v])[1:31]
                    got = [(float(x.position[0]), float(x.position[1]), float(np.squeeze(x.heading))) for x in v.history]
                    ctx.count("history_states", len(got))
                    if len(past.setdefault(id(v), [v])) - 1 != len(exp) or len(got) != len(exp):
                        exp, got = exp[:min(len(exp), len(got))], got[:min(len(exp), len(got))]
                        ctx.ok(len(v.history) >= min(30, len(past.setdefault(id(v), [v])) - 1), "history-length", "%d past states recorded out of %d" % (len(v.history), len(past.setdefault(id(v), [v])) - 1))
                    ctx.ok(np.allclose(np.array(got), np.array(exp), atol=1e-9), "history", "the recorded past of a vehicle is %s instead of %s" % (got[:3], exp[:3]))
                    ctx.ok(all(x is not v for x in v.history), "history-alias", "the past of a vehicle is the vehicle itself")
                over += bool(np.all(done))
                if over > 2:
                    break
            shown = np.array(env.render("rgb_array")).astype(int)
            env.road.record_history = False
            plain = np.array(env.render("rgb_array")).astype(int)
            sf = env.config["simulation_frequency"]
            diff = np.any(shown != plain, axis=-1)
            h, w = env.config["screen_height"], env.config["screen_width"]
            sc, c, ego = env.config["scaling"], env.config["centering_position"], env.vehicle
            margin = 2.5 / sc
            drawn = [(v, past.setdefault(id(v), [v])[1:31][:2 * sf:max(int(sf / 3), 1)]) for v in env.road.vehicles]
            for v, poses in drawn:
                for (x, y, _) in poses:
                    q = ((x - float(ego.position[0])) * sc + c[0] * w, (y - float(ego.position[1])) * sc + c[1] * h)
                    if not (4 < q[0] < w - 4 and 4 < q[1] < h - 4) or any(near(o, (x, y), margin) for o in list(env.road.vehicles) + list(env.road.objects)):
                        continue
                    if min(v.LENGTH, v.WIDTH) * sc < 7:
                        continue
                    ctx.count("ghosts")
                    if not ctx.ok(diff[int(q[1]), int(q[0])], "ghost", "%s: past position (%.1f, %.1f) is not displayed" % (type(v).__name__, x, y)):
                        return
            ys, xs = np.nonzero(diff)
            for k in rng.permutation(len(ys))[:60]:
                p = ((xs[k] + .5 - c[0] * w) / sc + float(ego.position[0]), (ys[k] + .5 - c[1] * h) / sc + float(ego.position[1]))
                ctx.count("ghost_pixels")
                if not ctx.ok(any(math.hypot(p[0] - x, p[1] - y) < v.LENGTH / 2 + 2.5 + margin for v, poses in drawn for (x, y, _) in poses), "ghost-elsewhere",
                              "a past position is displayed at (%.1f, %.1f), where no vehicle was" % p):
                    return
            env.close()


def disguise(rng, env, v):
    """Change what must not show: speeds, targets, routes, timers and lane-change settings."""
    v.speed = float([v.speed, 0., -5., 39.][rng.randint(4)])
    if isinstance(v, ControlledVehicle):
        v.target_speed = float([v.target_speed, 0., -5., 39.][rng.randint(4)])
        idxs = W.all_indexes(env.road.network)
        if rng.rand() < .3:
            v.target_lane_index = idxs[rng.randint(len(idxs))]
        if rng.rand() < .3:
            v.route = None
    if isinstance(v, IDMVehicle):
        v.enable_lane_change = bool(rng.rand() < .5)
        v.timer = float(rng.uniform(0, 3))


def hostile(rng, env):
    for v in env.road.vehicles:
        if rng.rand() < .5:
            disguise(rng, env, v)
        if v is env.vehicle and rng.rand() < .5:
            v.heading = float(rng.choice([rng.uniform(-7, 7), rng.uniform(-.35, .35)]))
            continue
        k = rng.randint(5)
        if k == 0:
            v.crashed = True
        elif k == 1:
            v.color = [(200, 0, 150), (12, 34, 56), None][rng.randint(3)]
        v.position = np.asarray(env.vehicle.position, dtype=float) + rng.uniform(-1, 1, size=2) * [60, rng.choice([8, 30])]
        v.heading = float(rng.choice([rng.uniform(-7, 7), rng.uniform(-.05, .05), rng.uniform(-.35, .35), math.pi]))
    for o in env.road.objects:
        if rng.rand() < .5:
            o.position = np.asarray(env.vehicle.position, dtype=float) + rng.uniform(-1, 1, size=2) * [30, 10]
            o.hit = bool(rng.rand() < .5)
            o.heading = float(rng.choice([0., rng.uniform(-7, 7), rng.uniform(-.05, .05)]))


def frames(ctx, name, count):
    rng = ctx.rng
    for e in range(count):
        if ctx.out_of_time():
            break
        cfg = W.random_env_config(rng, name)
        cfg.pop("show_trajectories", None)
        cfg.update(offscreen_rendering=True, screen_width=int(rng.randint(120, 700)), screen_height=int(rng.randint(100, 500)), scaling=float(rng.choice([4., 5.5, 7.15, 10., 16., 30.])),
                   centering_position=[float(rng.uniform(.1, .9)), float(rng.uniform(.2, .8))])
        history = rng.rand() < .15
        seed = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, seed=seed, config=cfg)):
            env = W.make(name, cfg, seed)
            pol = W.Policy(rng)
            frame(ctx, env, rng)
            for _ in range(2):
                if not np.all(env.step(pol(env.action_space))[2]):
                    frame(ctx, env, rng)
            if name != "lane-keeping":
                for _ in range(10 if name in ("highway", "parking") else 3):  # vehicles of other kinds
                    cls = [LinearVehicle, Vehicle, MDPVehicle, ControlledVehicle, W.BicycleVehicle][rng.randint(5)]
                    env.road.vehicles.append(cls(env.road, [0, 0], 0., 10.))
            for _ in range(4 if name in ("merge", "parking") else 1):
                o = [Obstacle, Landmark][rng.randint(2)](env.road, [0, 0], 0.)
                o.LENGTH = float(rng.uniform(2, 9))
                o.WIDTH = float(rng.uniform(1, o.LENGTH))
                env.road.objects.append(o)
            for _ in range(3):
                hostile(rng, env)
                frame(ctx, env, rng)
            env.close()
            if history:
                ctx.count("history_frames")
                env = W.make(name, dict(cfg, show_trajectories=True), seed)
                env.step(pol(env.action_space))
                img = env.render("rgb_array")
                ctx.ok(img.shape == (cfg["screen_height"], cfg["screen_width"], 3), "frame-size", "frame of shape %s" % (img.shape,))
                env.close()


def units(tier):
    k = 8 if tier == "thorough" else 1
    out = []
    per = {"highway": (14, 5), "merge": (14, 8), "roundabout": (12, 6), "intersection": (8, 5), "multi-intersection": (6, 5), "parking": (8, 10), "summon": (7, 8), "two-way": (14, 8)}
    for i in range(k):
        out += [("diff-%s-%d" % (n, i), differential, dict(name=n, count=c, steps=s)) for n, (c, s) in per.items()]
        out += [("frames-%s-%d" % (n, i), frames, dict(name=n, count=c)) for n, c in
                (("highway", 12), ("merge", 14), ("roundabout", 12), ("intersection", 8), ("parking", 10), ("summon", 8), ("two-way", 14))]
        out += [("fresh-%s-%d" % (n, i), freshness, dict(name=n, count=4)) for n in ("highway", "merge", "roundabout", "intersection", "parking", "two-way")]
        out.append(("markings-%d" % i, markings, dict(count=30)))
        out.append(("frames-lane-keeping-%d" % i, frames, dict(name="lane-keeping", count=10)))
        out += [("history-%s-%d" % (n, i), history, dict(name=n, count=c)) for n, c in (("highway", 8), ("merge", 8), ("roundabout", 6), ("intersection", 5), ("parking", 6), ("two-way", 8))]
    return out
