"""Key events posted to on-screen viewers, compared with the mapped actions applied to a twin of the environment."""
import copy
import math

import numpy as np
import pygame

from hm import world as W
from highway_env.road.graphics import WorldSurface

RULE = ("sequences of key presses and releases (arrows, display keys, other keys), mouse and other events, singly or in batches, posted to the viewer of every environment with meta-action and continuous "
        "action types of both axes or only one, with and without manual control, at rest, during lane changes and after crashes; distinct by environment, configuration, event and state")
REQUIRED = {"events": 2500, "meta:FASTER": 60, "meta:SLOWER": 60, "meta:LANE_LEFT": 35, "meta:LANE_RIGHT": 35, "meta_disabled": 100, "continuous_set": 200, "continuous_release": 100, "continuous_disabled": 100,
            "unmapped": 300, "zoom": 60, "pan": 60, "speed_changed": 30, "lane_changed": 20, "crashed": 5, "manual_steps": 100, "manual_unviewed": 4, "multi_agent": 60, "other_viewers": 100, "batches": 200}

ARROWS = (pygame.K_RIGHT, pygame.K_LEFT, pygame.K_DOWN, pygame.K_UP)
DISPLAY = (pygame.K_l, pygame.K_o, pygame.K_m, pygame.K_k)
OTHERS = (pygame.K_a, pygame.K_SPACE, pygame.K_RETURN, pygame.K_ESCAPE, pygame.K_TAB, pygame.K_w, pygame.K_s, pygame.K_d, pygame.K_KP6, pygame.K_KP8, pygame.K_PAGEUP, pygame.K_p, pygame.K_i, pygame.K_j, pygame.K_n)
META = {pygame.K_RIGHT: ("FASTER", "longitudinal"), pygame.K_LEFT: ("SLOWER", "longitudinal"), pygame.K_DOWN: ("LANE_RIGHT", "lateral"), pygame.K_UP: ("LANE_LEFT", "lateral")}
# continuous: axis, value
CONT = {pygame.K_RIGHT: ("lateral", .7), pygame.K_LEFT: ("lateral", -.7), pygame.K_DOWN: ("longitudinal", -.7), pygame.K_UP: ("longitudinal", .7)}
RANGES = {"acceleration": (-5., 5.), "steering": (-math.pi / 4, math.pi / 4)}


def random_event(rng):
    k = rng.randint(10)
    if k < 6:
        key = ARROWS[rng.randint(4)]
    elif k < 8:
        key = DISPLAY[rng.randint(4)]
    elif k < 9:
        key = OTHERS[rng.randint(len(OTHERS))]
    else:
        kind = rng.randint(3)
        if kind == 0:
            return pygame.event.Event(pygame.MOUSEMOTION, pos=(3, 4), rel=(1, 1), buttons=(0, 0, 0))
        if kind == 1:
            return pygame.event.Event(pygame.MOUSEBUTTONDOWN, pos=(3, 4), button=int(rng.randint(1, 6)))
        return pygame.event.Event(pygame.USEREVENT, key=int(ARROWS[rng.randint(4)]))
    down = rng.rand() < .65
    return pygame.event.Event(pygame.KEYDOWN if down else pygame.KEYUP, key=int(key), mod=int(rng.choice([0, pygame.KMOD_SHIFT])), unicode="", scancode=0)


class Commands:
    """The continuous command in force, according to the actions passed and the keys."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.value = {"longitudinal": 0., "lateral": 0.}
        self.axes = [a for a in ("longitudinal", "lateral") if cfg.get(a, True)]

    def stepped(self, action):
        a = np.asarray(action, dtype=float)
        if self.cfg.get("clip", True):
            a = np.clip(a, -1, 1)
        for k, axis in enumerate(self.axes):
            self.value[axis] = float(a[k])

    def mapped(self):
        def m(axis, key):
            lo, hi = self.cfg.get(key + "_range") or RANGES[key]
            return lo + (self.value[axis] + 1) / 2 * (hi - lo) if axis in self.axes else 0.
        return {"acceleration": m("longitudinal", "acceleration"), "steering": m("lateral", "steering")}

    def event(self, ev):
        """:return: whether the event concerns an enabled axis, and whether it changes the command"""
        if ev.type not in (pygame.KEYDOWN, pygame.KEYUP) or ev.key not in CONT:
            return False, False
        axis, value = CONT[ev.key]
        if axis not in self.axes:
            return False, False
        value = value if ev.type == pygame.KEYDOWN else 0.
        changed = self.value[axis] != value
        self.value[axis] = value
        return True, changed


def post(events):
    for ev in events:
        pygame.event.post(ev)


def action_config(rng, name):
    if name != "intersection" and (name in ("parking", "summon", "lane-keeping") or rng.rand() < .45):
        axes = [(True, True), (True, False), (False, True)][rng.randint(3)]
        cfg = {"type": "ContinuousAction", "longitudinal": axes[0], "lateral": axes[1]}
        if rng.rand() < .3:
            cfg["acceleration_range"] = [-float(rng.uniform(1, 6)), float(rng.uniform(1, 6))]
        if rng.rand() < .3:
            cfg["steering_range"] = [-float(rng.uniform(.1, .7)), float(rng.uniform(.1, .7))]
        if rng.rand() < .3:
            cfg["clip"] = False
        if name == "lane-keeping" or rng.rand() < .2 and name != "summon":
            cfg["dynamical"] = True
        return cfg
    axes = [(True, True), (True, False), (False, True)][rng.randint(3)]
    return {"type": "DiscreteMetaAction", "longitudinal": axes[0], "lateral": axes[1]}


def snap_action(v):
    return {k: float(np.squeeze(x)) for k, x in v.action.items()}


def episodes(ctx, names, n, steps):
    rng = ctx.rng
    for i in range(n):
        name = names[i % len(names)]
        act = action_config(rng, name)
        user = {"action": act, "manual_control": bool(rng.rand() < .4), "screen_width": 120, "screen_height": 60, "offscreen_rendering": False,
                "real_time_rendering": False, "scaling": float(rng.uniform(2, 8))}
        if rng.rand() < .5:
            user["centering_position"] = [float(rng.uniform(.2, .8)), .5]
        if name not in ("parking", "summon", "lane-keeping"):
            user["observation"] = {"type": "Kinematics"}
        if name == "intersection":
            user["initial_vehicle_count"] = 2
        seed = int(rng.randint(1 << 30))
        given = copy.deepcopy(user)
        with ctx.guard(dict(env=name, config=given, seed=seed)):
            env = W.env_class(name)(dict(W.ENVS[name][1], **user))
            env.seed(seed)
            env.reset()
            try:
                env.render("human")
                episode(ctx, env, name, act, steps)
            finally:
                env.close()
            ctx.ok(user == given, "config", "the configuration of the user was changed: %s" % W.first_diff(given, user) if user != given else "")


def episode(ctx, env, name, act, steps):
    rng = ctx.rng
    meta = act["type"] == "DiscreteMetaAction"
    cmd = None if meta else Commands(act)
    env._hm_done = False
    other = WorldSurface((60, 40), 0, pygame.Surface((60, 40)))
    for s in range(steps):
        config = copy.deepcopy(env.config)
        batch = [random_event(rng) for _ in range(1 if rng.rand() < .6 else int(rng.randint(2, 7)))]
        if len(batch) > 1:
            ctx.count("batches")
        twin = copy.deepcopy(env)
        before = W.vstate(env.vehicle)
        surface = env.viewer.sim_surface
        scale, centre = surface.scaling, list(surface.centering_position)
        other_before = (other.scaling, list(other.centering_position))
        zoom, pan, strict = 1., 0., True
        for ev in batch:
            ctx.count("events")
            key = getattr(ev, "key", None)
            pressed = ev.type == pygame.KEYDOWN
            if pressed and key in DISPLAY:
                ctx.count("zoom" if key in DISPLAY[:2] else "pan")
                zoom *= {pygame.K_l: 1 / 1.3, pygame.K_o: 1.3}.get(key, 1.)
                pan += {pygame.K_m: -.1, pygame.K_k: .1}.get(key, 0.)
            if meta:
                if pressed and key in META and act[META[key][1]]:
                    ctx.count("meta:" + META[key][0])
                    twin.vehicle.act(META[key][0])
                elif key in META and not act[META[key][1]]:
                    ctx.count("meta_disabled")
                else:
                    ctx.count("unmapped")
            else:
                mine, changed = cmd.event(ev)
                if changed:
                    ctx.count("continuous_set" if pressed else "continuous_release")
                    twin.vehicle.act(cmd.mapped())
                elif mine:
                    strict = False      # repeating the command in force: acting again or not are the same
                else:
                    ctx.count("continuous_disabled" if key in CONT else "unmapped")
        post(batch)
        if rng.rand() < .5:
            env.viewer.handle_events()
        else:
            env.render("human")
        label = "%s %s after %s" % (name, act, [(pygame.event.event_name(e.type), pygame.key.name(e.key) if hasattr(e, "key") else None) for e in batch])
        got, want = W.snap(env), W.snap(twin)
        has, due = snap_action(env.vehicle), snap_action(twin.vehicle)
        if not strict and any(abs(has[k] - due[k]) > 1e-6 for k in due):
            due = cmd.mapped()      # a repeated command may be passed again or left in force
        ctx.ok(all(abs(has[k] - due[k]) < 1e-6 for k in due), "effect:" + ("meta" if meta else "continuous"), "%s: action %s instead of %s" % (label, has, due))
        for d in (got, want):
            for k in d["controlled"]:
                if k is not None:
                    d["vehicles"][k].pop("action", None)
        diff = W.first_diff(W.norm(got), W.norm(want))
        ctx.ok(diff is None, "effect:" + ("meta" if meta else "continuous"), "%s: %s (the mapped actions give the second)" % (label, diff))
        if env.vehicle.crashed:
            ctx.count("crashed")
        after = W.vstate(env.vehicle)
        if meta:
            ctx.count("speed_changed", int(after["target_speed"] != before["target_speed"]))
            ctx.count("lane_changed", int(after["target_lane_index"] != before["target_lane_index"]))
        ctx.close(surface.scaling, scale * zoom, "zoom", "scaling after %s" % label, tol=1e-9 * scale * 10)
        ctx.close(surface.centering_position[0], centre[0] + pan, "pan", "centring after %s" % label, tol=1e-9)
        ctx.ok(surface.centering_position[1] == centre[1], "pan", "vertical centring changed")
        ctx.count("other_viewers")
        ctx.ok((other.scaling, list(other.centering_position)) == other_before, "display:shared", "the display keys of one viewer changed another one: %s" % (other.centering_position,))
        fresh = WorldSurface((60, 40), 0, pygame.Surface((60, 40)))
        ctx.ok(list(fresh.centering_position) == [.5, .5] and fresh.scaling == 5.5, "display:shared", "the display keys of one viewer changed the defaults of the next: %s" % (fresh.centering_position,))
        ctx.ok(env.config == config, "config", "%s: the configuration was changed: %s" % (label, W.first_diff(config, env.config) if env.config != config else ""))
        ctx.seen(name, act, [(e.type, getattr(e, "key", None)) for e in batch], got)
        if s == 0:
            ctx.sample(env=name, action=act, events=[(pygame.event.event_name(e.type), getattr(e, "key", None)) for e in batch])
        if rng.rand() < .5 and not env._hm_done:
            a = W.sample_action(env.action_space, rng)
            if not meta and not env.config["manual_control"]:
                cmd.stepped(a)
            env.enable_auto_render = bool(rng.rand() < .3)
            _, _, env._hm_done, _ = env.step(a)
        if rng.rand() < .02:
            env.vehicle.crashed = True


# ------------------------------------------------------------------ manual control: the actions passed are ignored
def manual(ctx, names, n, steps):
    rng = ctx.rng
    for i in range(n):
        name = names[i % len(names)]
        act = action_config(rng, name)
        cfg = {"action": act, "manual_control": True, "screen_width": 100, "screen_height": 60, "real_time_rendering": False, "offscreen_rendering": False}
        if name not in ("parking", "summon", "lane-keeping"):
            cfg["observation"] = {"type": "Kinematics"}
        seed = int(rng.randint(1 << 30))
        k = int(rng.randint(1 << 30))
        with ctx.guard(dict(env=name, config=cfg, seed=seed)):
            view = (i // len(names)) % 2 == 0
            ctx.count("manual_unviewed", not view)
            runs = [manual_run(ctx, name, cfg, seed, k, j, steps, view) for j in range(2)]
            for s, (a, b) in enumerate(zip(*runs)):
                ctx.count("manual_steps")
                d = W.first_diff(a, b)
                if not ctx.ok(d is None, "manual", "%s %s: with the same key events but other actions passed to step, step %d differs at %s" % (name, act, s, d)):
                    break
            ctx.seen(name, act, seed, runs[0])


def manual_run(ctx, name, cfg, seed, k, j, steps, view):
    events, other = np.random.RandomState(k), np.random.RandomState(k + 1 + j)
    env = W.make(name, cfg, seed)
    out = []
    try:
        if view:
            env.render("human")
        for s in range(steps):
            batch = [random_event(events) for _ in range(int(events.randint(0, 3)))]
            if view:
                post(batch)
            if events.rand() < .5 and view:
                env.render("human")     # else they are handled by the automatic rendering during the step
            env.enable_auto_render = True
            a = W.sample_action(env.action_space, other) if other.rand() < .8 or name in ("intersection", "lane-keeping") else None
            obs, _, done, _ = env.step(W.sample_action(env.action_space, other) if a is None else a)
            out.append(W.norm((obs, done, W.snap(env))))
    finally:
        env.close()
    return out


def multi_agent(ctx, n, steps):
    """Environments whose action type is not driven by the keyboard."""
    rng = ctx.rng
    for i in range(n):
        cfg = {"screen_width": 100, "screen_height": 60, "offscreen_rendering": False, "real_time_rendering": False, "initial_vehicle_count": 2}
        with ctx.guard(dict(env="multi-intersection", config=cfg)):
            env = W.make("multi-intersection", cfg, int(rng.randint(1 << 30)))
            try:
                env.render("human")
                for s in range(steps):
                    before = W.norm(W.snap(env))
                    batch = [random_event(rng) for _ in range(3)]
                    post(batch)
                    env.viewer.handle_events()
                    ctx.count("multi_agent")
                    d = W.first_diff(before, W.norm(W.snap(env)))
                    ctx.ok(d is None, "effect:multi", "%s changed by %s" % (d, [getattr(e, "key", None) for e in batch]))
                    if s % 4 == 3:
                        env.step(W.sample_action(env.action_space, rng))
                    ctx.seen(before, [getattr(e, "key", None) for e in batch])
            finally:
                env.close()


def window(ctx, n):
    """Closing the window."""
    rng = ctx.rng
    for i in range(n):
        name = ["highway", "parking", "merge", "two-way"][i % 4]
        mode = ["human", "rgb_array"][int(rng.randint(2))]
        with ctx.guard(dict(env=name, mode=mode)):
            env = W.make(name, {"screen_width": 100, "screen_height": 60, "offscreen_rendering": False, "real_time_rendering": False}, int(rng.randint(1 << 30)))
            env.render(mode)
            before = W.norm(W.snap(env))
            post([pygame.event.Event(pygame.QUIT)])
            img = env.render(mode)
            ctx.count("closed")
            if mode == "rgb_array":
                ctx.ok(img is not None and np.shape(img) == (60, 100, 3), "window", "no image of the last frame")
            ctx.ok(env.viewer is None, "window", "the viewer is still there after its window was closed")
            ctx.ok(W.norm(W.snap(env)) == before, "window", "closing the window changed the scene")
            env.reset()
            env.step(W.sample_action(env.action_space, rng))
            env.close()
            ctx.seen(name, mode, before)


def units(tier):
    k = 8 if tier == "thorough" else 1
    us = [("keys-%d" % i, episodes, dict(names=names, n=8 * k, steps=60)) for i, names in enumerate((["highway", "parking"], ["merge", "summon"], ["two-way", "roundabout"], ["intersection", "lane-keeping"]))]
    us += [("keys-long-%d" % i, episodes, dict(names=["merge", "two-way", "parking"], n=3 * k, steps=150)) for i in range(2)]
    us += [("manual-%d" % i, manual, dict(names=names, n=6 * k, steps=12)) for i, names in enumerate((["merge", "two-way", "parking"], ["roundabout", "highway", "summon"], ["intersection", "lane-keeping"]))]
    return us + [("multi-agent", multi_agent, dict(n=2 * k, steps=50)), ("window", window, dict(n=8 * k))]
