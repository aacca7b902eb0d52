"""Workload construction and independent reference mathematics shared by the checks."""
import copy
import importlib
import math

import numpy as np
from gym import spaces

import highway_env  # noqa: registers the environments
from highway_env import envs as henvs
from highway_env.road.lane import StraightLane, SineLane, CircularLane
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle, Landmark
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle
from highway_env.vehicle.dynamics import BicycleVehicle

IDM = "highway_env.vehicle.behavior.IDMVehicle"
LINEAR = "highway_env.vehicle.behavior.LinearVehicle"
AGGRESSIVE = "highway_env.vehicle.behavior.AggressiveVehicle"
DEFENSIVE = "highway_env.vehicle.behavior.DefensiveVehicle"

# name -> (import path, base configuration). Small scenes: a step of highway with 50 vehicles costs 0.4 s.
ENVS = {
    "highway": ("highway_env.envs.highway_env:HighwayEnv", {"vehicles_count": 8, "duration": 20}),
    "merge": ("highway_env.envs.merge_env:MergeEnv", {}),
    "roundabout": ("highway_env.envs.roundabout_env:RoundaboutEnv", {}),
    "intersection": ("highway_env.envs.intersection_env:IntersectionEnv", {"initial_vehicle_count": 6}),
    "multi-intersection": ("highway_env.envs.intersection_env:MultiAgentIntersectionEnv", {"initial_vehicle_count": 5}),
    "parking": ("highway_env.envs.parking_env:ParkingEnv", {}),
    "summon": ("highway_env.envs.summon_env:SummonEnv", {}),
    "two-way": ("highway_env.envs.two_way_env:TwoWayEnv", {}),
    "lane-keeping": ("highway_env.envs.lane_keeping_env:LaneKeepingEnv", {}),
}
IDS = ["highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0",
       "intersection-multi-agent-v1", "parking-v0", "parking-ActionRepeat-v0", "summon-v0", "summon-ActionRepeat-v0",
       "two-way-v0", "lane-keeping-v0"]


def env_class(name):
    mod, cls = ENVS[name][0].split(":")
    return getattr(importlib.import_module(mod), cls)


def make(name, config=None, seed=0, reset=True):
    cfg = copy.deepcopy(ENVS[name][1])
    cfg.update(copy.deepcopy(config or {}))
    env = env_class(name)(cfg)
    env.seed(seed)
    if reset:
        obs = env.reset()
        env._hm_first_obs = obs
    return env


def sample_action(space, rng):
    if isinstance(space, spaces.Discrete):
        return int(rng.randint(space.n))
    if isinstance(space, spaces.Tuple):
        return tuple(sample_action(s, rng) for s in space.spaces)
    if isinstance(space, spaces.Box):
        mode = rng.randint(4)
        a = rng.uniform(-1, 1, size=space.shape)
        if mode == 0:
            a = np.sign(a)
        elif mode == 1:
            a = a * 0.1
        return a.astype(np.float32)
    raise TypeError(space)


class Policy:
    """A seeded action source with persistent phases, so that extreme states are reached."""

    def __init__(self, rng, style=None):
        self.rng = rng
        self.style = rng.randint(4) if style is None else style
        self.hold, self.a = 0, None

    def __call__(self, space):
        if self.style == 0 or self.hold <= 0 or self.a is None:
            self.a = sample_action(space, self.rng)
            self.hold = self.rng.randint(1, 5)
        self.hold -= 1
        return copy.deepcopy(self.a)


# ------------------------------------------------------------------ snapshots
def vstate(v):
    """Observable state of a vehicle or object as plain values."""
    d = dict(cls=type(v).__name__, x=float(v.position[0]), y=float(v.position[1]), heading=float(np.squeeze(v.heading)),
             speed=float(np.squeeze(v.speed)))
    for k in ("crashed", "hit", "is_yielding", "yield_timer", "speed_index", "enable_lane_change"):
        if hasattr(v, k):
            d[k] = getattr(v, k)
    for k in ("timer", "target_speed", "lateral_speed", "yaw_rate"):
        if getattr(v, k, None) is not None:
            d[k] = float(np.squeeze(getattr(v, k)))
    for k in ("lane_index", "target_lane_index"):
        if hasattr(v, k):
            d[k] = tuple(getattr(v, k)) if getattr(v, k) is not None and not np.isscalar(getattr(v, k)) else getattr(v, k)
    if hasattr(v, "route"):
        d["route"] = None if v.route is None else [tuple(r) for r in v.route]
    if isinstance(getattr(v, "action", None), dict):
        d["action"] = {k: float(np.squeeze(x)) for k, x in v.action.items()}
    return d


def rng_state(rs):
    s = rs.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def snap(env, rng=True):
    road = env.road
    d = dict(vehicles=[vstate(v) for v in road.vehicles], objects=[vstate(o) for o in road.objects],
             controlled=[next((i for i, w in enumerate(road.vehicles) if w is v), None) for v in env.controlled_vehicles],
             time=env.time, steps=env.steps)
    if rng:
        d["rng"] = rng_state(env.np_random)
    return d


def norm(x):
    """Canonical plain-Python form of observations / infos, for exact comparison."""
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, x.astype(float).tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, np.generic):
        return norm(x.item())
    if isinstance(x, (tuple, list)):
        return tuple(norm(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), norm(v)) for k, v in x.items()))
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return repr(float(x))
    return repr(x)


def first_diff(a, b, path=""):
    """Human-readable first difference of two snapshots."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s.%s only on one side" % (path, k)
            r = first_diff(a[k], b[k], "%s.%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = first_diff(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return None
    if a is b or (type(a) in (int, float, bool, str, bytes, type(None)) and a == b):
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return None if a.shape == b.shape and np.array_equal(a, b, equal_nan=True) else "%s: arrays differ" % path
    try:
        if bool(a == b):
            return None
    except Exception:  # noqa
        pass
    sa, sb = repr(a), repr(b)
    return "%s: %s != %s" % (path, sa[:120], sb[:120])


# ------------------------------------------------------------------ reference geometry
def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))


def corners(center, length, width, heading):
    c, s = math.cos(heading), math.sin(heading)
    out = []
    for sx, sy in ((1, 1), (1, -1), (-1, -1), (-1, 1)):
        dx, dy = sx * length / 2, sy * width / 2
        out.append((center[0] + c * dx - s * dy, center[1] + s * dx + c * dy))
    return out


def rect_gap(r1, r2):
    """Separating-axis gap of two rotated rectangles (center, length, width, heading):
    > 0 separated by that much along an axis, < 0 overlapping by at least that much along every axis."""
    p1, p2 = corners(*r1), corners(*r2)
    gap = -1e18
    for (_, _, _, h) in (r1, r2):
        for ax in ((math.cos(h), math.sin(h)), (-math.sin(h), math.cos(h))):
            a = [x * ax[0] + y * ax[1] for x, y in p1]
            b = [x * ax[0] + y * ax[1] for x, y in p2]
            gap = max(gap, min(b) - max(a), min(a) - max(b))
    return gap


def body(v, k=0.9):
    return ((float(v.position[0]), float(v.position[1])), k * v.LENGTH, k * v.WIDTH, float(np.squeeze(v.heading)))


# ------------------------------------------------------------------ reference lane geometry
# Only the *constructor parameters* of a lane are trusted (start/end, centre/radius/phases, amplitude...).
def lane_kind(lane):
    if isinstance(lane, CircularLane):
        return "circular"
    if isinstance(lane, SineLane):
        return "sine"
    if isinstance(lane, StraightLane):
        return "straight"
    return "other"


def ref_position(lane, s, r):
    k = lane_kind(lane)
    if k == "circular":
        d = lane.direction
        phi = d * s / lane.radius + lane.start_phase
        rad = lane.radius - d * r
        return np.array([lane.center[0] + rad * math.cos(phi), lane.center[1] + rad * math.sin(phi)])
    if k == "sine":
        r = r + lane.amplitude * math.sin(lane.pulsation * s + lane.phase)
    dx, dy = float(lane.end[0] - lane.start[0]), float(lane.end[1] - lane.start[1])
    n = math.hypot(dx, dy)
    ux, uy = dx / n, dy / n
    return np.array([lane.start[0] + s * ux - r * uy, lane.start[1] + s * uy + r * ux])


def ref_local(lane, p):
    k = lane_kind(lane)
    if k == "circular":
        dx, dy = float(p[0] - lane.center[0]), float(p[1] - lane.center[1])
        phi = wrap(math.atan2(dy, dx) - lane.start_phase)
        return lane.direction * phi * lane.radius, lane.direction * (lane.radius - math.hypot(dx, dy))
    dx, dy = float(lane.end[0] - lane.start[0]), float(lane.end[1] - lane.start[1])
    n = math.hypot(dx, dy)
    ux, uy = dx / n, dy / n
    ex, ey = float(p[0] - lane.start[0]), float(p[1] - lane.start[1])
    s, r = ex * ux + ey * uy, -ex * uy + ey * ux
    if k == "sine":
        r -= lane.amplitude * math.sin(lane.pulsation * s + lane.phase)
    return s, r


def ref_heading(lane, s):
    k = lane_kind(lane)
    if k == "circular":
        return lane.direction * s / lane.radius + lane.start_phase + lane.direction * math.pi / 2
    h = math.atan2(float(lane.end[1] - lane.start[1]), float(lane.end[0] - lane.start[0]))
    if k == "sine":
        h += math.atan(lane.amplitude * lane.pulsation * math.cos(lane.pulsation * s + lane.phase))
    return h


def ref_length(lane):
    if lane_kind(lane) == "circular":
        return lane.radius * (lane.end_phase - lane.start_phase) * lane.direction
    return math.hypot(float(lane.end[0] - lane.start[0]), float(lane.end[1] - lane.start[1]))


def ref_on_lane(lane, p, margin=0.0):
    """(is on lane, distance of the decision to its threshold)"""
    s, r = ref_local(lane, p)
    L = ref_length(lane)
    conds = [lane.width / 2 + margin - abs(r), s + 5.0, L + 5.0 - s]
    return all(c >= 0 for c in conds), min(abs(c) for c in conds)


def ref_reachable(lane, p):
    s, r = ref_local(lane, p)
    L = ref_length(lane)
    conds = [2 * lane.width - abs(r), s, L + 5.0 - s]
    if lane.forbidden:
        return False, 1e9
    return all(c >= 0 for c in conds), min(abs(c) for c in conds)


def ref_lane_distance(lane, p, heading=None):
    s, r = ref_local(lane, p)
    L = ref_length(lane)
    d = abs(r) + max(s - L, 0) + max(-s, 0)
    if heading is not None:
        d += abs(wrap(heading - ref_heading(lane, s)))
    return d


def all_indexes(net):
    return [(f, t, i) for f, to in net.graph.items() for t, ls in to.items() for i in range(len(ls))]


def lane_of(net, idx):
    f, t, i = idx
    return net.graph[f][t][0 if i is None else i]


# ------------------------------------------------------------------ scenes
def straight_net(lanes=3, length=1000., angle=0., width=4.0, y0=0., speed_limit=20, forbidden=()):
    net = RoadNetwork()
    c, s = math.cos(angle), math.sin(angle)
    for i in range(lanes):
        y = y0 + i * width
        a = np.array([-s * y, c * y])
        b = np.array([c * length - s * y, s * length + c * y])
        net.add_lane("0", "1", StraightLane(a, b, width=width, speed_limit=speed_limit, forbidden=i in forbidden))
    return net


def chain_net(rng, lanes=2, pieces=3):
    """Consecutive roads of (possibly varying) lane counts along x."""
    net = RoadNetwork()
    x = 0.
    for p in range(pieces):
        L = float(rng.uniform(40, 120))
        n = lanes if rng.rand() < .5 else int(rng.randint(1, 4))
        for i in range(n):
            net.add_lane(str(p), str(p + 1), StraightLane([x, 4. * i], [x + L, 4. * i]))
        x += L
    return net


def random_env_roads(rng):
    """A road taken from a (randomly chosen) environment."""
    name = ["merge", "roundabout", "intersection", "two-way", "highway"][rng.randint(5)]
    env = make(name, {}, seed=int(rng.randint(1 << 30)))
    return name, env


def tap(road, before_act=None, after_act=None, before_step=None, after_step=None):
    """Attach monitors to the public act/step of one road instance."""
    act, step = road.act, road.step

    def act_(*a, **k):
        if before_act:
            before_act()
        r = act(*a, **k)
        if after_act:
            after_act()
        return r

    def step_(dt, *a, **k):
        if before_step:
            before_step(dt)
        r = step(dt, *a, **k)
        if after_step:
            after_step(dt)
        return r

    road.act, road.step = act_, step_


def untap(road):
    for k in ("act", "step"):
        road.__dict__.pop(k, None)


# ------------------------------------------------------------------ configurations and traces
TRAFFIC = [IDM, LINEAR, AGGRESSIVE, DEFENSIVE]


def random_observation(rng, name, discrete=True):
    """An observation configuration that the environment supports."""
    kinds = ["Kinematics", "OccupancyGrid"]
    if discrete:
        kinds.append("TimeToCollision")
    kind = str(rng.choice(kinds))
    if kind == "Kinematics":
        c = {"type": kind, "vehicles_count": int(rng.randint(1, 9))}
        if rng.rand() < .5:
            c["features"] = ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h"][:int(rng.randint(3, 8))]
        if rng.rand() < .5:
            c["features_range"] = {"x": [-100, 100], "y": [-100, 100], "vx": [-20, 20], "vy": [-20, 20]}
            if rng.rand() < .5:
                c["features_range"] = {f: [[0, 50], [-100, 0], [10, 30], [-5, 60]][rng.randint(4)] for f in ("x", "y", "vx", "vy")}
        for k in ("absolute", "see_behind", "observe_intentions"):
            if rng.rand() < .3:
                c[k] = True
        if rng.rand() < .3:
            c["order"] = "shuffled"
        return c
    if kind == "OccupancyGrid":
        n, m = int(rng.randint(2, 9)), int(rng.randint(2, 9))
        return {"type": kind, "features": ["presence", "x", "y", "vx", "vy", "cos_h"][:int(rng.randint(1, 7))],
                "features_range": {"x": [-60, 60], "y": [-60, 60], "vx": [-30, 30], "vy": [-30, 30]},
                "grid_size": [[-5. * n, 5. * n], [-5. * m, 5. * m]], "grid_step": [[5, 5], [5, 5], [2.5, 5], [.5, 2.5]][rng.randint(4)]}
    return {"type": kind, "horizon": int(rng.randint(2, 12))}


def random_action(rng, name, multi=False):
    cont = name in ("parking", "summon", "lane-keeping") or (name in ("highway", "roundabout") and rng.rand() < .3 and not multi)
    if cont:
        c = {"type": "ContinuousAction"}
        if rng.rand() < .3 and name != "lane-keeping":
            c["acceleration_range"] = [-3., 4.]
            c["steering_range"] = [-.3, .4]
        if rng.rand() < .3 and name != "lane-keeping":
            c["clip"] = False
        if name == "lane-keeping":
            c.update({"longitudinal": False, "lateral": True, "dynamical": True, "steering_range": [-math.pi / 3, math.pi / 3]})
        else:
            k = rng.randint(4)
            if k == 0:
                c["lateral"] = False
            elif k == 1:
                c["longitudinal"] = False
        return c
    c = {"type": "DiscreteMetaAction"}
    if name in ("intersection", "multi-intersection"):
        c.update(lateral=False, longitudinal=True)
    elif name in ("highway", "two-way", "roundabout") and rng.rand() < .4:
        c.update({"lateral": False} if rng.rand() < .5 else {"longitudinal": False})
    return c


def random_env_config(rng, name):
    """A configuration (over the base one) that the environment supports, with every main dimension varied."""
    c = {}
    multi = name == "multi-intersection" or (name == "highway" and rng.rand() < .2)
    act = random_action(rng, name, multi)
    discrete = act["type"] == "DiscreteMetaAction"
    if multi:
        k = int(rng.randint(1, 5 if name == "multi-intersection" else 4))
        c["controlled_vehicles"] = k
        c["action"] = {"type": "MultiAgentAction", "action_config": act}
        c["observation"] = {"type": "MultiAgentObservation", "observation_config": random_observation(rng, name, discrete)}
    else:
        c["action"] = act
        if name not in ("parking", "summon", "lane-keeping"):
            c["observation"] = random_observation(rng, name, discrete)
        elif name == "parking" and rng.rand() < .3:
            c["controlled_vehicles"] = int(rng.randint(1, 4))
            c["action"] = {"type": "MultiAgentAction", "action_config": act}
            c["observation"] = {"type": "MultiAgentObservation", "observation_config": {
                "type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'], "scales": [100, 100, 5, 5, 1, 1],
                "normalize": False}}
    if rng.rand() < .4:
        c["simulation_frequency"] = int(rng.choice([5, 10, 15, 20]))
        c["policy_frequency"] = int(rng.choice([1, 1, 2, 5]))
    if name not in ("parking", "lane-keeping"):
        c["other_vehicles_type"] = str(rng.choice(TRAFFIC))
    if name == "highway":
        c.update(vehicles_count=int(rng.randint(0, 9)), lanes_count=int(rng.randint(1, 6)), duration=int(rng.randint(3, 12)),
                 offroad_terminal=bool(rng.rand() < .3), ego_spacing=float(rng.uniform(1, 3)), vehicles_density=float(rng.uniform(.5, 2)))
    if name == "intersection" or name == "multi-intersection":
        c.update(initial_vehicle_count=int(rng.randint(1, 8)), spawn_probability=float(rng.choice([0., .6, 1.])), duration=int(rng.randint(3, 10)),
                 normalize_reward=bool(rng.rand() < .5), destination=[None, "o1", "o2", "o3"][rng.randint(4)])
    if name == "roundabout":
        c.update(incoming_vehicle_destination=[None, 0, 1, 2][rng.randint(4)], duration=int(rng.randint(3, 12)))
    if name == "summon":
        c.update(vehicles_count=int(rng.randint(0, 12)))
    if rng.rand() < .15:
        c["show_trajectories"] = True
    return c


def forget_routes(env, seed):
    """In some episodes the vehicles lose their planned routes, and wander by the environment's randomness."""
    if seed % 3 == 0:
        for v in env.road.vehicles:
            if getattr(v, "route", None) is not None:
                v.route = None


def run_trace(env, actions_seed, steps, seed, first_obs=None, with_obs=True):
    """Seed, reset and play; returns the list of per-step records (plain values)."""
    rng = np.random.RandomState(actions_seed)
    env.seed(seed)
    obs = env.reset()
    forget_routes(env, actions_seed)
    out = [("reset", norm(obs), flat(snap(env)))]
    pol = Policy(rng)
    for t in range(steps):
        a = pol(env.action_space)
        obs, rew, done, info = env.step(a)
        out.append((t, norm(obs), norm(rew), norm(done), norm({k: v for k, v in info.items() if k != "action"}), flat(snap(env))))
        if np.all(done):
            break
    return out


def flat(s):
    """Snapshot with the generator state shortened."""
    import hashlib
    if "rng" in s:
        s = dict(s)
        s["rng"] = hashlib.sha1(repr(s["rng"]).encode()).hexdigest()
    return s


def in_child(fn, *args):
    """Run fn in a forked child process, so that nothing it does to the process can matter afterwards."""
    import os
    import pickle
    import tempfile
    import traceback
    fd, path = tempfile.mkstemp(prefix="hm_child_")
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = ("ok", fn(*args))
            except Exception as e:  # noqa
                tb = traceback.extract_tb(e.__traceback__)
                res = ("error", type(e).__name__, str(e), traceback.format_exc()[-3000:], [(f.filename, f.name) for f in tb])
            with open(path, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except EOFError:
        return ("error", "ChildDied", "no result", "", [])
    finally:
        os.unlink(path)


def child_value(ctx, res):
    """The value of in_child, or None after recording whose error it was."""
    from hm import core
    if res[0] == "ok":
        return res[1]
    owner = None
    for filename, name in reversed(res[4]):
        if filename.startswith(core.PKG):
            owner = name
            break
        if filename.startswith(core.VERIF):
            break
    if owner:
        ctx.fail("exception:%s@%s" % (res[1], owner), "%s: %s" % (res[1], res[2]), traceback=res[3])
    else:
        ctx.harness_errors.append(res[3] or res[2])
    return None


# ------------------------------------------------------------------ reference neighbours and driver model
def circular_seam(lane, p):
    if lane_kind(lane) != "circular":
        return False
    phi = wrap(math.atan2(p[1] - lane.center[1], p[0] - lane.center[0]) - lane.start_phase)
    return abs(abs(phi) - math.pi) < 1e-4


def ref_neighbours(road, v, idx):
    """(front, rear, marginal): closest bodies ahead and behind along a lane, among those on it."""
    lane = lane_of(road.network, idx)
    s0 = ref_local(lane, v.position)[0]
    marginal = circular_seam(lane, v.position)
    front = rear = None
    for o in list(road.vehicles) + list(road.objects):
        if o is v or isinstance(o, Landmark):
            continue
        marginal = marginal or circular_seam(lane, o.position)
        on, m = ref_on_lane(lane, o.position, 1.)
        marginal = marginal or m < 1e-6
        if not on:
            continue
        s = ref_local(lane, o.position)[0]
        marginal = marginal or abs(s - s0) < 1e-6
        if s >= s0:
            marginal = marginal or (front is not None and abs(front[0] - s) < 1e-6)
            if front is None or s < front[0]:
                front = (s, o)
        else:
            marginal = marginal or (rear is not None and abs(rear[0] - s) < 1e-6)
            if rear is None or s > rear[0]:
                rear = (s, o)
    return front and front[1], rear and rear[1], marginal


def ref_idm(p, ego, front, lane_ego=None):
    """Intelligent-driver acceleration, with the parameters of driver p, of vehicle `ego` behind `front`."""
    if ego is None or isinstance(ego, (Obstacle, Landmark)):
        return 0.
    v0 = getattr(ego, "target_speed", 0)
    v0 = v0 if abs(v0) > 1e-2 else (1e-2 if v0 > 0 else -1e-2)
    v = float(ego.speed)
    acc = 1. - (max(v, 0.) / v0) ** p.DELTA
    if front is not None:
        d = ref_local(ego.lane, front.position)[0] - ref_local(ego.lane, ego.position)[0]
        d = d if abs(d) > 1e-2 else (1e-2 if d > 0 else -1e-2)
        acc -= (ref_desired_gap(p, ego, front) / d) ** 2
    return p.COMFORT_ACC_MAX * acc


def ref_desired_gap(p, ego, front):
    h = float(ego.heading)
    hf = float(front.heading)
    dvx = float(ego.speed) * math.cos(h) - float(front.speed) * math.cos(hf)
    dvy = float(ego.speed) * math.sin(h) - float(front.speed) * math.sin(hf)
    dv = dvx * math.cos(h) + dvy * math.sin(h)
    ab = -p.COMFORT_ACC_MAX * p.COMFORT_ACC_MIN
    return p.DISTANCE_WANTED + p.TIME_WANTED * float(ego.speed) + float(ego.speed) * dv / (2 * math.sqrt(ab))


def ref_linear_features(p, ego, front):
    if ego is None or isinstance(ego, (Obstacle, Landmark)):
        return np.zeros(3)
    v = float(ego.speed)
    vt = getattr(ego, "target_speed", v) - v
    dv = dp = 0.
    if front is not None:
        d = ref_local(ego.lane, front.position)[0] - ref_local(ego.lane, ego.position)[0]
        dv = min(float(front.speed) - v, 0.)
        dp = min(d - (p.DISTANCE_WANTED + max(v, 0.) * p.TIME_WANTED), 0.)
    return np.array([vt, dv, dp])


def ref_acceleration(p, ego, front):
    """Acceleration that driver p attributes to `ego` behind `front`, before saturation."""
    if isinstance(p, LinearVehicle):
        return float(np.dot(np.asarray(p.ACCELERATION_PARAMETERS, dtype=float), ref_linear_features(p, ego, front)))
    return ref_idm(p, ego, front)
