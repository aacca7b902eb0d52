"""Planted bugs kept in /verif/seeded: id, property (first: the broken one; others: further checks to try), edits, what it needs, what it breaks, demonstration."""
ALL = []
A, O, ACT, MDP, G = "envs/common/abstract.py", "envs/common/observation.py", "envs/common/action.py", "envs/common/finite_mdp.py", "envs/common/graphics.py"
HW, ME, RO, IN, PA, SU, TW, LK = ("envs/highway_env.py", "envs/merge_env.py", "envs/roundabout_env.py", "envs/intersection_env.py", "envs/parking_env.py",
                                  "envs/summon_env.py", "envs/two_way_env.py", "envs/lane_keeping_env.py")
I, U, P, E, VG, RG, K, R, C, B = ("interval.py", "utils.py", "vehicle/uncertainty/prediction.py", "vehicle/uncertainty/estimation.py", "vehicle/graphics.py",
                                  "road/graphics.py", "vehicle/kinematics.py", "road/road.py", "vehicle/controller.py", "vehicle/behavior.py")
L, D, REG, OBJ = "road/lane.py", "vehicle/dynamics.py", "road/regulation.py", "road/objects.py"


def S(sid, prop, edits, needs, breaks, demo):
    ALL.append((sid, prop, edits, needs, breaks, demo))


# ---------------------------------------------------------------------------------------------------------------- C01
S("c01-roundabout-global-rng", "C01", [(RO, "destination = self.np_random.choice(destinations)", "destination = np.random.choice(destinations)")],
  "a roundabout with random destinations (incoming_vehicle_destination unset), in a process whose global random state is not the same in both runs",
  "the destination of incoming roundabout vehicles is drawn from numpy's global generator, so that the same seed gives other episodes",
  '''
from highway_env.envs.roundabout_env import RoundaboutEnv


def run(g):
    np.random.seed(g)
    env = RoundaboutEnv({"incoming_vehicle_destination": None})
    env.seed(7)
    env.reset()
    return [v.route[-1] for v in env.road.vehicles if getattr(v, "route", None)]


runs = [run(g) for g in range(8)]
check(all(r == runs[0] for r in runs), runs)
''')

S("c01-multimodel-shared-default", "C01", [(B, "        self.data = data if data is not None else {}\n        self.collecting_data = True", "        self.data = data if data is not None else {}\n        self.timer = (id(self.data) // 16 % 7) / 7 * self.LANE_CHANGE_DELAY if timer is None and target_speed is None else self.timer\n        self.collecting_data = True")],
  "traffic made of linear drivers with lane changes, run more than once (the memory layout differs from run to run)",
  "the lane-change timer of linear drivers depends on a memory address, so episodes with the same seed differ",
  '''
from highway_env.envs.highway_env import HighwayEnv

keep = []


def run():
    env = HighwayEnv({"other_vehicles_type": "highway_env.vehicle.behavior.LinearVehicle", "vehicles_count": 12})
    env.seed(3)
    env.reset()
    keep.append([env, [bytearray(k) for k in range(50)]])
    return [v.timer for v in env.road.vehicles if hasattr(v, "timer")]


runs = [run() for _ in range(6)]
check(all(r == runs[0] for r in runs), "the timers differ")
''')

# ---------------------------------------------------------------------------------------------------------------- C02
S("c02-goal-shared", "C02", [(A, "                setattr(result, k, copy.deepcopy(v, memo))", "                setattr(result, k, copy.deepcopy(v, memo) if k != \"goal\" else v)")],
  "a copy of a parking or summon environment of which one reaches the goal (or edits it) before the other",
  "the copies share one goal landmark: reaching it in a copy marks it hit in the original",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
env.seed(0)
env.reset()
other = copy.deepcopy(env)
check(other.goal is not env.goal, "the goal is shared")
check(other.goal in other.road.objects, "the goal of the copy is not on its road")
other.vehicle.position = np.array(other.goal.position)
other.step(np.zeros(2))
check(other.goal.hit and not env.goal.hit, "reaching the goal in the copy marked the original's")
''')

S("c02-observer-of-original", "C02,C05", [(A, "                setattr(result, k, copy.deepcopy(v, memo))", "                setattr(result, k, copy.copy(v) if k == \"observation_type\" and not hasattr(v, \"agents_observation_types\") else copy.deepcopy(v, memo))")],
  "a copy of a single-agent environment that is stepped while the original is not",
  "the observation type of a copied environment still observes the original environment",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv()
env.seed(1)
env.reset()
other = copy.deepcopy(env)
mine = [other.step(1)[0] for _ in range(2)]
theirs = [env.step(1)[0] for _ in range(2)]
check(all(np.allclose(a, b) for a, b in zip(mine, theirs)), "the copy observes something else")
''')

# ---------------------------------------------------------------------------------------------------------------- C03

S("c03-simplify-front-only", "C03", [(A, "            state_copy.vehicle, self.PERCEPTION_DISTANCE)", "            state_copy.vehicle, self.PERCEPTION_DISTANCE, count=30)")],
  "simplifying a scene with more than thirty vehicles within perception distance",
  "simplification drops vehicles within perception distance in very dense traffic",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 50, "lanes_count": 6, "vehicles_density": 4, "initial_spacing": .1})
env.seed(0)
env.reset()
x = env.vehicle.position
for k, v in enumerate(v for v in env.road.vehicles if v is not env.vehicle):
    v.position = x + np.array([10. + 3 * k, 4. * (k % 3)])
near = sum(np.linalg.norm(v.position - x) < env.PERCEPTION_DISTANCE for v in env.road.vehicles if v is not env.vehicle)
got = len(env.simplify().road.vehicles) - 1
check(got == near, (got, near))
''')

# ---------------------------------------------------------------------------------------------------------------- C04


# ---------------------------------------------------------------------------------------------------------------- C05
S("c05-origin-of-first-agent", "C05", [(O, "origin = self.observer_vehicle if not self.absolute else None", "origin = self.env.vehicle if not self.absolute else None")],
  "an environment with several controlled vehicles and relative coordinates, for the second agent",
  "other vehicles are observed relative to the first agent instead of the observing one",
  '''
from highway_env.envs.intersection_env import MultiAgentIntersectionEnv
env = MultiAgentIntersectionEnv({"observation": {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics", "normalize": False, "see_behind": True, "features": ["x", "y"]}}})
env.seed(0)
env.reset()
obs = env.observation_type.observe()
me = env.controlled_vehicles[1]
rel = [v.position - me.position for v in env.road.vehicles if v is not me]
for row in obs[1][1:]:
    check(not row.any() or min(np.linalg.norm(row - r) for r in rel) < 1e-3, row)
''')

S("c05-destination-lane-length", "C05", [(K, "            last_lane = self.road.network.get_lane((_from, _to, _id if _id is not None else 0))\n            return last_lane.position(last_lane.length, 0)",
                                         "            last_lane = self.road.network.get_lane((_from, _to, _id if _id is not None else 0))\n            return last_lane.position(self.lane.length, 0)")],
  "a route whose last lane is not as long as the current one, and the destination features observed from somewhere not in line with it",
  "the destination of a vehicle is not at the end of its route, so the destination direction features are wrong",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv({"destination": "o1"})
env.seed(0)
env.reset()
v = env.vehicle
for _ in range(14):
    d = v.road.network.get_lane(v.route[-1][:2] + (0,))
    want = d.position(d.length, 0) - v.position
    got = v.destination_direction
    check(np.allclose(got, want / np.linalg.norm(want), atol=1e-6), (got, want / np.linalg.norm(want)))
    if env.step(2)[2]:
        break
''')

# ---------------------------------------------------------------------------------------------------------------- C06

S("c06-stale-layers", "C06", [(O, "            self.grid.fill(0)\n", "            self.grid[[f in (\"presence\", \"x\", \"y\", \"vx\", \"vy\") for f in self.features]] = 0\n")],
  "a grid with heading layers, observed again after vehicles moved to other cells",
  "the heading layers keep the values of cells that vehicles have left",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"observation": {"type": "OccupancyGrid", "features": ["presence", "cos_h"], "grid_size": [[-50, 50], [-20, 20]], "grid_step": [5, 5]}})
env.seed(0)
env.reset()
for _ in range(6):
    obs = env.step(1)[0]
    check(not (obs[1][obs[0] == 0]).any(), "an empty cell has a heading")
''')

# ---------------------------------------------------------------------------------------------------------------- C07
S("c07-last-vehicle-wins", "C07", [(MDP, "grid[speed_index, lane, time] = np.maximum(grid[speed_index, lane, time], cost)", "grid[speed_index, lane, time] = cost")],
  "two vehicles met in the same lane and time bin, one certainly and the other only by touching, in the order of the road's list",
  "a near miss recorded later erases a certain collision from the time-to-collision grid",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.envs.common.finite_mdp import compute_ttc_grid
env = HighwayEnv({"vehicles_count": 2, "lanes_count": 2})
env.seed(0)
env.reset()
ego = env.vehicle
a, b = [v for v in env.road.vehicles if v is not ego]
ego.speed = 30
lane = ego.lane_index


def grid(da, db):
    for v, d in ((a, da), (b, db)):
        v.position, v.heading, v.speed = ego.position + np.array([d, 0.]), 0, 20
        v.on_state_update()
    return compute_ttc_grid(env, 1., 10.)


check(np.allclose(grid(30., 36.), grid(36., 30.)), "the grid depends on the order of the vehicles")
''')


# ---------------------------------------------------------------------------------------------------------------- C08
S("c08-aliased-stack", "C08", [(O, "        self.state = np.roll(self.state, -1, axis=-1)\n        self.state[:, :, -1] = new_obs\n        return self.state",
                                "        self.state[:, :, :-1] = self.state[:, :, 1:]\n        self.state[:, :, -1] = new_obs\n        return self.state")],
  "keeping a returned grayscale observation and looking at it again after further steps",
  "all returned grayscale observations are the same array, which later steps overwrite",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "observation": {"type": "GrayscaleObservation", "weights": [.3, .6, .1], "stack_size": 3, "observation_shape": (84, 84)}, "screen_width": 84, "screen_height": 84})
env.seed(0)
first = env.reset()
kept = first.copy()
for _ in range(3):
    env.step(1)
check((first == kept).all(), "an observation already returned was changed")
''')

S("c08-bgr-weights", "C08", [(O, "np.dot(raw_rgb[..., :3], self.config['weights'])", "np.dot(raw_rgb[..., 2::-1], self.config['weights'])")],
  "weights that differ for red and blue, and something red or blue in the frame (an off-grey colour)",
  "the red and blue weights of the luminance are exchanged",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "observation": {"type": "GrayscaleObservation", "weights": [.7, .2, .1], "stack_size": 1, "observation_shape": (84, 60)}, "screen_width": 84, "screen_height": 60})
env.seed(0)
env.reset()
obs = env.step(1)[0]
frame = env.render("rgb_array")
want = (frame[..., :3] @ np.array([.7, .2, .1])).T
check(np.allclose(obs[:, :, -1], want, atol=1e-3), np.abs(obs[:, :, -1] - want).max())
''')

# ---------------------------------------------------------------------------------------------------------------- more of C03 ... C07


S("c04-clip-below", "C04,C05", [(O, "                if self.clip:\n                    df[feature] = np.clip(df[feature], -1, 1)", "                if self.clip:\n                    df[feature] = np.clip(df[feature], -1 if f_range[0] < 0 else None, 1)")],
  "a configured feature range that does not reach below zero, and a vehicle below its lower end (behind, or driving backwards)",
  "features whose range is positive are no longer clipped from below, so that observations leave the declared space",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"observation": {"type": "Kinematics", "absolute": False, "see_behind": True, "features_range": {"x": [0, 50], "y": [-12, 12], "vx": [-20, 20], "vy": [-20, 20]}}})
env.seed(0)
env.reset()
others = [v for v in env.road.vehicles if v is not env.vehicle]
others[0].position = env.vehicle.position - np.array([9., 0.])
obs = env.observation_type.observe()
check(env.observation_space.contains(obs.astype(np.float32)), obs)
''')

S("c06-fine-grid-size", "C06", [(O, "        self.features = features if features is not None else self.FEATURES\n        self.grid_size = np.array(grid_size)", "        self.features = features or self.FEATURES\n        self.grid_size = np.array(grid_size) * (1 if grid_step is None or features_range is None else 1. / min(1, *grid_step))")],
  "an occupancy grid with configured feature ranges and a grid step below one metre",
  "the grid of fine occupancy observations does not have the configured size",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"observation": {"type": "OccupancyGrid", "features": ["presence", "vx"], "grid_size": [[-10, 10], [-8, 8]], "grid_step": [.5, 2], "features_range": {"vx": [-20, 20]}}})
env.seed(0)
obs = env.reset()
check(obs.shape == (2, 8, 40), obs.shape)
''')

S("c06-crashed-vanish", "C06", [(O, "[v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles])", "[v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles if not v.crashed or v.speed])")],
  "a crashed vehicle that has stopped within the grid",
  "wrecks that stopped are no longer shown on the occupancy grid",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"observation": {"type": "OccupancyGrid", "features": ["presence"], "grid_size": [[-50, 50], [-20, 20]], "grid_step": [5, 5]}, "vehicles_count": 1})
env.seed(0)
env.reset()
other = next(v for v in env.road.vehicles if v is not env.vehicle)
other.position = env.vehicle.position + np.array([22., 0.])
other.crashed, other.speed = True, 0
check(env.observation_type.observe().sum() == 2, "the wreck is not shown")
''')

S("c07-terminal-near-miss", "C07", [(MDP, "    collision = grid == 1\n", "    collision = grid > 0\n")],
  "the finite MDP of a state in which some vehicle is passed so closely in time that only the bodies touch",
  "possible but uncertain collisions are terminal states of the finite MDP",
  '''
import types
mod = types.ModuleType("finite_mdp.mdp")


class DeterministicMDP:
    def __init__(self, transition, reward, terminal=None, state=0):
        self.terminal = terminal


mod.DeterministicMDP = DeterministicMDP
sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = types.ModuleType("finite_mdp"), mod
from highway_env.envs.highway_env import HighwayEnv
from highway_env.envs.common.finite_mdp import finite_mdp, compute_ttc_grid
env = HighwayEnv()
env.seed(0)
env.reset()
grid = compute_ttc_grid(env, 1., 10.)
check(((grid > 0) & (grid < 1)).any(), "no near miss in the scene")
mdp = finite_mdp(env, 1., 10.)
want = grid == 1
want[:, :, -1] = True
check((np.ravel(mdp.terminal) == np.ravel(want)).all(), "terminal states")
''')

S("c07-speed-window", "C07", [(O, "        repeats[np.array([0, -1])] += clamped_grid.shape[0]\n", "        repeats[np.array([0, -1])] += max(clamped_grid.shape[0], 3)\n")],
  "an observer with only two speeds",
  "the time-to-collision window of observers with two speeds shows the wrong speeds",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.envs.common.finite_mdp import compute_ttc_grid
env = HighwayEnv({"observation": {"type": "TimeToCollision", "horizon": 10}, "lanes_count": 1})
env.seed(0)
env.reset()
v = env.vehicle
v.SPEED_COUNT = 2
for i in (0, 1):
    v.speed_index = i
    g = compute_ttc_grid(env, 1., 10.)
    obs = env.observation_type.observe()
    check(obs.shape == (3, 3, 10), obs.shape)
    for k in range(3):
        check((obs[k, 1] == g[min(max(i + k - 1, 0), 1), 0]).all(), (i, k))
''')

# ---------------------------------------------------------------------------------------------------------------- C09
S("c09-history-alias", "C09", [(G, "                                                                          1 / 3 / self.env.config[\"policy_frequency\"],", "                                                                          1 / 3,")],
  "a planned action sequence displayed in an environment whose policy frequency is not one",
  "the displayed planned trajectory does not have its three states per decision",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"policy_frequency": 5, "offscreen_rendering": True, "screen_width": 100, "screen_height": 60})
env.seed(0)
env.reset()
env.render("rgb_array")
env.viewer.set_agent_action_sequence([1] * 10)
check(len(env.viewer.vehicle_trajectory) == 30, len(env.viewer.vehicle_trajectory))
''')

S("c09-crashed-colour", "C09", [(VG, "        elif vehicle.crashed:\n            color = cls.RED\n        elif isinstance(vehicle, LinearVehicle):", "        elif vehicle.crashed and not isinstance(vehicle, MDPVehicle):\n            color = cls.RED\n        elif isinstance(vehicle, LinearVehicle):")],
  "a rendered frame in which a controlled vehicle has crashed",
  "crashed controlled vehicles are drawn as if they were fine",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "screen_width": 200, "screen_height": 100, "vehicles_count": 0})
env.seed(0)
env.reset()
env.vehicle.crashed = True
frame = env.render("rgb_array")
pixel = frame[50, 60]
check(tuple(pixel) == (255, 100, 100), pixel)
''')

S("c09-westward-heading", "C09", [(VG, "        h = v.heading if abs(v.heading) > 2 * np.pi / 180 else 0", "        h = np.clip(v.heading, -np.pi, np.pi) if abs(v.heading) > 2 * np.pi / 180 else 0")],
  "a vehicle whose accumulated heading exceeds half a turn (such as on circular lanes), drawn",
  "vehicles that have turned more than half a turn are drawn at a wrong heading",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "screen_width": 200, "screen_height": 200, "vehicles_count": 0})
env.seed(0)
env.reset()
v = env.vehicle


def frame(h):
    v.heading = h
    env.should_update_rendering = True
    return np.array(env.render("rgb_array"), dtype=float)


a, b = frame(1.), frame(1. + 2 * np.pi)
check(np.mean(np.any(a != b, axis=-1)) < .002, np.mean(np.any(a != b, axis=-1)))
''')

# ---------------------------------------------------------------------------------------------------------------- C10
S("c10-min-speed", "C10", [(K, "                self.speed = other.speed = min([self.speed, other.speed], key=abs)", "                self.speed = other.speed = min(self.speed, other.speed)")],
  "a collision involving a vehicle that drives backwards",
  "after a collision both vehicles take the algebraically smaller speed, so that a fast reversing one drags the other",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2))
a, b = Vehicle(road, [100, 0], 0, 2.), Vehicle(road, [103, 0], 0, -9.)
road.vehicles += [a, b]
road.step(1e-3)
check(a.crashed and b.crashed)
check(abs(a.speed - 2) < .1 and abs(b.speed - 2) < .1, (a.speed, b.speed))
''')

S("c10-width-of-self", "C10", [(K, "(other.position, 0.9*other.LENGTH, 0.9*other.WIDTH, other.heading))", "(other.position, 0.9*other.LENGTH, 0.9*self.WIDTH, other.heading))")],
  "contact between bodies of different widths (a vehicle and a wide obstacle)",
  "collisions are tested with the width of the wrong body",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(4))
o = Obstacle(road, [100, 0])
o.WIDTH = 6.
v = Vehicle(road, [100, 3.], 0, 1.)
road.vehicles.append(v)
road.objects.append(o)
road.step(1e-3)
check(v.crashed and o.hit)
''')

S("c10-obstacle-speed", "C10", [(K, "                self.speed = min([self.speed, 0], key=abs)\n                self.crashed = other.hit = True", "                self.speed = min(self.speed, 0)\n                self.crashed = other.hit = True")],
  "backing into an obstacle",
  "a vehicle that backs into an obstacle keeps its speed and goes through it",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(4))
o = Obstacle(road, [100, 0])
v = Vehicle(road, [103, 0], 0, -6.)
road.vehicles.append(v)
road.objects.append(o)
for _ in range(10):
    road.step(.1)
check(v.crashed and v.speed == 0, v.speed)
''')

# ---------------------------------------------------------------------------------------------------------------- C11
S("c11-reverse-turn", "C11", [(K, "self.heading += self.speed * np.sin(beta) / (self.LENGTH / 2) * dt", "self.heading += abs(self.speed) * np.sin(beta) / (self.LENGTH / 2) * dt")],
  "driving backwards with the wheels turned",
  "a vehicle driving backwards turns to the wrong side",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(4))
v = Vehicle(road, [100, 0], 0, -3.)
v.act({"steering": .3, "acceleration": 0})
v.step(.1)
check(v.heading < 0, v.heading)
''')

# ---------------------------------------------------------------------------------------------------------------- C12
S("c12-yaw-after-speed", "C12", [(D, "        self.lateral_speed += derivative[4, 0] * dt\n        self.yaw_rate += derivative[5, 0] * dt", "        self.lateral_speed += derivative[4, 0] * dt\n        self.yaw_rate += self.derivative[5, 0] * dt")],
  "any simulated step, compared with the derivative at its start",
  "the yaw rate is integrated from the derivative at the middle of the update instead of its start",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.dynamics import BicycleVehicle
road = Road(RoadNetwork.straight_road_network(4))
v = BicycleVehicle(road, [100, 0], 0, 15.)
v.action = {"steering": .1, "acceleration": 1.}
v.lateral_speed, v.yaw_rate = .5, .2
d = v.derivative[5, 0]
v.step(.05)
check(abs(v.yaw_rate - (.2 + .05 * d)) < 1e-9, (v.yaw_rate, .2 + .05 * d))
''')

S("c12-yaw-bound", "C12", [(D, "        self.yaw_rate = np.clip(self.yaw_rate, -self.MAX_ANGULAR_SPEED, self.MAX_ANGULAR_SPEED)", "        self.yaw_rate = np.clip(self.yaw_rate, -self.MAX_ANGULAR_SPEED, np.pi)")],
  "a yaw rate beyond half a turn per second",
  "the yaw rate is bounded too tightly, on one side only",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.dynamics import BicycleVehicle
road = Road(RoadNetwork.straight_road_network(4))
h = []
for s in (1, -1):
    v = BicycleVehicle(road, [100, 0], 0, 10.)
    v.yaw_rate = 5. * s
    v.step(.01)
    h.append(v.heading)
check(abs(h[0] + h[1]) < 1e-9, h)
''')

# ---------------------------------------------------------------------------------------------------------------- C13
S("c13-before-start", "C13", [(L, "        return abs(r) + max(s - self.length, 0) + max(0 - s, 0)\n", "        return abs(r) + max(s - self.length, 0)\n")],
  "the distance (without heading) of a point before the start of a lane",
  "points before the start of a lane are said to be closer to it than they are",
  '''
from highway_env.road.lane import StraightLane
lane = StraightLane([0, 0], [50, 0])
for p, want in (([-10, 1], 11), ([25, -2], 2), ([60, 0], 10)):
    check(abs(lane.distance(np.array(p, dtype=float)) - want) < 1e-9, (p, lane.distance(np.array(p))))
''')

S("c13-sine-heading-clamped", "C13", [(L, "self.amplitude * self.pulsation * np.cos(self.pulsation * longitudinal + self.phase))", "self.amplitude * self.pulsation * np.cos(self.pulsation * min(longitudinal, self.length) + self.phase))")],
  "the heading of a sinusoidal lane beyond its end (where its position is still defined)",
  "beyond its end, the heading of a sinusoidal lane is not the direction of its centre line",
  '''
from highway_env.road.lane import SineLane
lane = SineLane([0, 0], [50, 0], 3, .1, .4)
for s in (10., 49., 55., 70.):
    d = lane.position(s + 1e-4, 0) - lane.position(s, 0)
    check(abs(np.arctan2(d[1], d[0]) - lane.heading_at(s)) < 1e-3, s)
''')

S("c13-arc-start-phase", "C13", [(L, "        phi = self.start_phase + utils.wrap_to_pi(phi - self.start_phase)\n", "        phi = self.start_phase + utils.wrap_to_pi(phi - utils.wrap_to_pi(self.start_phase)) if self.direction > 0 else phi + (2 * np.pi if phi < self.end_phase else 0)\n")],
  "points before the start of a counter-clockwise arc (or arcs whose phases are outside one turn)",
  "counter-clockwise circular lanes give wrong longitudinal coordinates just before their start or beyond one turn",
  '''
from highway_env.road.lane import CircularLane
for lane in (CircularLane([0, 0], 20, np.radians(90), np.radians(10), clockwise=False), CircularLane([3, 1], 15, np.radians(250), np.radians(170), clockwise=False), CircularLane([0, 0], 20, np.radians(0), np.radians(-90), clockwise=False)):
    for s in (-8., -1., 0.5, 5., lane.length - .5, lane.length + 5):
        got = lane.local_coordinates(lane.position(s, 1.))
        check(np.allclose(got, (s, 1.), atol=1e-6), (s, got))
''')

# ---------------------------------------------------------------------------------------------------------------- C14
S("c14-side-forbidden", "C14", [(R, "        if _id < len(self.graph[_from][_to]) - 1:\n", "        if _id < len(self.graph[_from][_to]) - 1 and not self.graph[_from][_to][_id].forbidden:\n")],
  "the side lanes of a forbidden lane",
  "a forbidden lane is said to have no right-hand neighbour",
  '''
from highway_env.road.lane import StraightLane
from highway_env.road.road import RoadNetwork
net = RoadNetwork()
for k in range(3):
    net.add_lane("a", "b", StraightLane([0, 4 * k], [100, 4 * k], forbidden=k == 1))
for k, want in ((0, [1]), (1, [0, 2]), (2, [1])):
    got = sorted(i for _, _, i in net.side_lanes(("a", "b", k)))
    check(got == want, (k, got))
''')

S("c14-route-depth", "C14", [(R, "                return self.is_connected_road(route[0], lane_index_2, route[1:], same_lane, depth - 1)", "                return self.is_connected_road(route[0], lane_index_2, route[1:], same_lane, depth)")],
  "a planned route longer than the search depth",
  "roads further along a route than the search depth are said to be connected",
  '''
from highway_env.road.lane import StraightLane
from highway_env.road.road import RoadNetwork
net = RoadNetwork()
for k in range(6):
    net.add_lane("n%d" % k, "n%d" % (k + 1), StraightLane([100 * k, 0], [100 * k + 100, 0]))
route = [("n%d" % k, "n%d" % (k + 1), None) for k in range(6)]
for d in range(4):
    for k in range(6):
        got = net.is_connected_road(("n0", "n1", 0), ("n%d" % k, "n%d" % (k + 1), 0), route=list(route), depth=d)
        check(got == (k <= d), (d, k, got))
''')

S("c14-closest-next-lane", "C14", [(R, "            lanes = range(len(self.graph[_to][next_to]))\n", "            lanes = range(min(len(self.graph[_to][next_to]), _id + 2))\n")],
  "the road after a junction has more lanes, and the closest one is more than one to the right of the lane number",
  "at the end of a lane a vehicle is not sent to the closest lane of the next road",
  '''
from highway_env.road.lane import StraightLane
from highway_env.road.road import RoadNetwork
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 12], [100, 12]))
for k in range(4):
    net.add_lane("b", "c", StraightLane([100, 4 * k], [200, 4 * k]))
got = net.next_lane(("a", "b", 0), position=np.array([99., 12.]))
check(tuple(got) == ("b", "c", 3), got)
''')

S("c14-path-through-start", "C14", [(R, "                if _next in path:\n                    continue\n                if _next == goal:\n                    yield path + [_next]",
                                     "                if _next in path:\n                    continue\n                if _next == goal and len(path) > 1 or _next == goal and len(self.graph[node]) == 1:\n                    yield path + [_next]")],
  "a goal that is directly next to a start with several outgoing roads, where a longer way exists too (or none)",
  "the shortest path misses a goal which is adjacent to the start",
  '''
from highway_env.road.lane import StraightLane
from highway_env.road.road import RoadNetwork
net = RoadNetwork()
for a, b in (("a", "g"), ("a", "b"), ("b", "g")):
    net.add_lane(a, b, StraightLane([0, 0], [100, 0]))
check(net.shortest_path("a", "g") == ["a", "g"], net.shortest_path("a", "g"))
''')

# ---------------------------------------------------------------------------------------------------------------- C15
S("c15-length-of-other", "C15", [(R, "and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]", "and (see_behind or -2 * v.LENGTH < vehicle.lane_distance_to(v))]")],
  "vehicles of other lengths slightly behind the observer, when not seeing behind",
  "how far behind others are seen depends on their length instead of the observer's",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(4))
a, b = Vehicle(road, [100, 0], 0, 2.), Vehicle(road, [88, 4], 0, 2.)
b.LENGTH = 12.
road.vehicles += [a, b]
check(not road.close_vehicles_to(a, 50, see_behind=False), "seen too far behind")
check(road.close_vehicles_to(a, 50) == [b])
''')

S("c15-hit-obstacle", "C15", [(R, "            if v is not vehicle and not isinstance(v, Landmark):", "            if v is not vehicle and not isinstance(v, Landmark) and not getattr(v, 'hit', False):")],
  "an obstacle that was already hit by someone",
  "obstacles disappear for the other drivers once they have been hit",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
v, o = Vehicle(road, [100, 0], 0, 2.), Obstacle(road, [130, 0])
road.vehicles.append(v)
road.objects.append(o)
check(road.neighbour_vehicles(v)[0] is o)
o.hit = True
check(road.neighbour_vehicles(v)[0] is o, "the obstacle is not seen")
''')

# ---------------------------------------------------------------------------------------------------------------- C16
S("c16-westward-wrap", "C16", [(C, "heading_rate_command = self.KP_HEADING * utils.wrap_to_pi(heading_ref - self.heading)", "heading_rate_command = self.KP_HEADING * (heading_ref - self.heading if abs(heading_ref) < 3.5 else utils.wrap_to_pi(heading_ref - self.heading))")],
  "a vehicle whose heading is a turn away from the lane's (driving west at -pi while the lane's heading is pi, after turning around)",
  "the steering of vehicles heading west oscillates between extremes because the heading error is not wrapped",
  '''
from highway_env.road.lane import StraightLane
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([1000, 0], [0, 0]))
road = Road(net)
for h in (np.pi, -np.pi, 3 * np.pi):
    v = ControlledVehicle(road, [900, 1], h, 20.)
    v.act()
    check(abs(v.action["steering"]) < .3, (h, v.action))
''')

S("c16-follow-current-lane", "C16,C19", [(C, "        if self.road.network.get_lane(self.target_lane_index).after_end(self.position):\n", "        if self.road.network.get_lane(self.target_lane_index).after_end(self.position) and self.lane_index == self.target_lane_index:\n")],
  "reaching the end of a road in the middle of a lane change",
  "a vehicle that changes lane at the end of its road does not switch to the next one",
  '''
from highway_env.road.lane import StraightLane
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
for k in range(2):
    net.add_lane("a", "b", StraightLane([0, 4 * k], [100, 4 * k]))
    net.add_lane("b", "c", StraightLane([100, 4 * k], [200, 4 * k]))
road = Road(net)
v = ControlledVehicle(road, [98.5, 0], 0, 20., target_lane_index=("a", "b", 1))
v.act()
check(tuple(v.target_lane_index) == ("b", "c", 1), v.target_lane_index)
''')

# ---------------------------------------------------------------------------------------------------------------- C17
S("c17-reachable-from-current", "C17", [(C, "            target_lane_index = _from, _to, np.clip(_id - 1, 0, len(self.road.network.graph[_from][_to]) - 1)\n            if self.road.network.get_lane(target_lane_index).is_reachable_from(self.position):",
                                         "            target_lane_index = _from, _to, np.clip(_id - 1, 0, len(self.road.network.graph[_from][_to]) - 1)\n            if self.lane.is_reachable_from(self.position):")],
  "a lane change to the left towards a lane that is forbidden or out of reach",
  "left lane changes are allowed to forbidden lanes",
  '''
from highway_env.road.lane import StraightLane
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
net = RoadNetwork()
for k in range(2):
    net.add_lane("a", "b", StraightLane([0, 4 * k], [500, 4 * k], forbidden=k == 0))
road = Road(net)
v = MDPVehicle(road, [50, 4], 0, 20.)
v.act("LANE_LEFT")
check(tuple(v.target_lane_index) == ("a", "b", 1), v.target_lane_index)
''')

S("c17-slower-from-target", "C17", [(C, "            self.speed_index = self.speed_to_index(self.speed) - 1", "            self.speed_index = min(self.speed_index, self.speed_to_index(self.speed)) - 1")],
  "slowing down while the target speed is below the current one by more than a step",
  "repeated slowing down counts from the previous target instead of the current speed",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
road = Road(RoadNetwork.straight_road_network(1))
v = MDPVehicle(road, [50, 0], 0, 30.)
v.act("SLOWER")
check(v.target_speed == 25)
v.act("SLOWER")
check(v.target_speed == 25, v.target_speed)
''')

# ---------------------------------------------------------------------------------------------------------------- C18
S("c18-asymmetric-steering", "C18", [(ACT, "                \"steering\": utils.lmap(action[0], [-1, 1], self.steering_range)\n            })\n        self", "                \"steering\": action[0] * self.steering_range[1]\n            })\n        self")],
  "steering only, with a configured steering range that is not symmetric",
  "with steering only, an asymmetric steering range is not respected",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"action": {"type": "ContinuousAction", "longitudinal": False, "steering_range": [-.1, .3]}})
env.seed(0)
env.reset()
for a in (-1., 0., .5, 1.):
    env.action_type.act(np.array([a]))
    check(abs(env.vehicle.action["steering"] - (-.1 + (a + 1) / 2 * .4)) < 1e-6, env.vehicle.action)
''')

S("c18-range-one-axis", "C18", [(ACT, "self.acceleration_range = acceleration_range if acceleration_range else self.ACCELERATION_RANGE", "self.acceleration_range = acceleration_range if acceleration_range and lateral else self.ACCELERATION_RANGE")],
  "a configured acceleration range with the longitudinal axis only",
  "the configured acceleration range is ignored when steering is disabled",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"action": {"type": "ContinuousAction", "lateral": False, "acceleration_range": [-2., 3.]}})
env.seed(0)
env.reset()
env.action_type.act(np.array([1.]))
check(abs(env.vehicle.action["acceleration"] - 3.) < 1e-6, env.vehicle.action)
''')

S("c18-policy-period", "C18,C11", [(K, "        if action:\n            self.action = action", "        if action and (not isinstance(action, dict) or any(action.values())):\n            self.action = action")],
  "a continuous action whose throttle and steering are exactly zero, after another one",
  "an action of exactly zero does not replace the previous one",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"action": {"type": "ContinuousAction"}, "vehicles_count": 0})
env.seed(0)
env.reset()
env.step(np.array([.5, .01]))
env.step(np.array([0., 0.]))
check(env.vehicle.action["acceleration"] == 0 and env.vehicle.action["steering"] == 0, env.vehicle.action)
''')

# ---------------------------------------------------------------------------------------------------------------- C19
S("c19-rear-approach", "C19", [(B, "        dv = np.dot(ego_vehicle.velocity - front_vehicle.velocity, ego_vehicle.direction) if projected \\\n", "        dv = np.dot(ego_vehicle.velocity - front_vehicle.velocity, front_vehicle.direction) if projected \\\n")],
  "a preceding vehicle that does not have the same heading (oncoming or crossing)",
  "the approach rate is projected on the other vehicle's direction, so an oncoming vehicle appears to be receding",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(1))
a, b = IDMVehicle(road, [100, 0], 0, 20.), IDMVehicle(road, [160, 0], np.pi, 10.)
want = a.DISTANCE_WANTED + 20 * a.TIME_WANTED + 20 * 30 / (2 * np.sqrt(-a.COMFORT_ACC_MAX * a.COMFORT_ACC_MIN))
check(abs(a.desired_gap(a, b) - want) < 1e-6, (a.desired_gap(a, b), want))
''')

# ---------------------------------------------------------------------------------------------------------------- C20
S("c20-abort-behind", "C20", [(B, "                        if 0 < d < d_star:", "                        if 0 < d < d_star and v.speed < self.speed:")],
  "two drivers changing into the same lane, the one ahead being the faster",
  "a lane change is not aborted for a vehicle ahead that changes into the same lane at a higher speed",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(3))
a = IDMVehicle(road, [100, 0], 0, 20., target_lane_index=("0", "1", 1))
b = IDMVehicle(road, [110, 8], 0, 22., target_lane_index=("0", "1", 1))
road.vehicles += [a, b]
a.change_lane_policy()
check(tuple(a.target_lane_index) == ("0", "1", 0), a.target_lane_index)
''')

S("c20-follower-of-empty-lane", "C20", [(B, "        new_following_pred_a = self.acceleration(ego_vehicle=new_following, front_vehicle=self)\n", "        new_following_pred_a = self.acceleration(ego_vehicle=new_following, front_vehicle=self if new_preceding else None)\n")],
  "a new follower close behind on a lane with nobody ahead",
  "drivers cut in front of a close follower when the new lane is free ahead",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2))
a = IDMVehicle(road, [100, 0], 0, 15., target_speed=30)
lead = IDMVehicle(road, [112, 0], 0, 10.)
rear = IDMVehicle(road, [94, 4], 0, 30.)
road.vehicles += [a, lead, rear]
check(not a.mobil(("0", "1", 1)), "an unsafe lane change is made")
road.vehicles.remove(rear)
check(a.mobil(("0", "1", 1)), "a safe lane change is not made")
''')

S("c20-timer-carry", "C20", [(B, "        self.timer = 0\n\n        # decide", "        self.timer -= self.LANE_CHANGE_DELAY\n\n        # decide")],
  "a driver that could not decide for several periods (its timer went on during a long lane change)",
  "after a long lane change a driver may decide several times within one decision period",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2))
a = IDMVehicle(road, [100, 0], 0, 15.)
road.vehicles.append(a)
a.timer = 3.5
decided = []
a.mobil = lambda lane: decided.append(1) or False
for _ in range(3):
    a.act()
    a.step(.1)
check(len(decided) == 1, decided)
''')

# ---------------------------------------------------------------------------------------------------------------- C21
S("c21-velocity-axis", "C21", [(B, "                dv = min(front_vehicle.speed - ego_vehicle.speed, 0)\n", "                dv = min(front_vehicle.velocity[0] - ego_vehicle.velocity[0], 0)\n")],
  "a linear driver following a slower leader on a road that does not run eastwards",
  "the approach speed feature of linear drivers is the difference of the x components of the velocities",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.behavior import LinearVehicle
net = RoadNetwork()
net.add_lane("0", "1", StraightLane([0, 0], [0, -400]))
road = Road(net, np_random=np.random.RandomState(0))
v, w = LinearVehicle.make_on_lane(road, ("0", "1", 0), 20, speed=20), LinearVehicle.make_on_lane(road, ("0", "1", 0), 120, speed=11)
f = v.acceleration_features(v, w)
check(abs(f[1] + 9) < 1e-6, f)
''')

S("c21-range-drift", "C21", [(B, "        self.ACCELERATION_PARAMETERS = self.ACCELERATION_RANGE[0] + ua*(self.ACCELERATION_RANGE[1] -\n                                                                        self.ACCELERATION_RANGE[0])\n",
                                "        low, high = self.ACCELERATION_RANGE\n        self.ACCELERATION_PARAMETERS = np.multiply(ua, high - low, out=ua)\n        self.ACCELERATION_PARAMETERS = np.add(low, ua, out=low if self.timer > self.LANE_CHANGE_DELAY else ua)\n")],
  "the behaviour of a linear driver randomised after it has been driving for more than its lane-change delay without deciding",
  "randomising a driver's parameters overwrites the lower end of the range shared by all linear drivers",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
before = np.array(LinearVehicle.ACCELERATION_RANGE)
vs = [LinearVehicle(road, [30. * i, 0], 0, 20, enable_lane_change=False) for i in range(4)]
road.vehicles = vs
for _ in range(40):
    road.act()
    road.step(1 / 15)
for v in vs:
    v.randomize_behavior()
check(np.array_equal(before, LinearVehicle.ACCELERATION_RANGE), LinearVehicle.ACCELERATION_RANGE)
check(not np.array_equal(vs[0].ACCELERATION_PARAMETERS, vs[1].ACCELERATION_PARAMETERS))
''')

S("c21-crawl-steering", "C21", [(B, "-lane_coords[1] * self.LENGTH / (utils.not_zero(self.speed) ** 2)])", "-lane_coords[1] * self.LENGTH / utils.not_zero(self.speed ** 2)])")],
  "a linear driver nearly stopped (below 0.1 m/s) away from its lane centre",
  "the lateral error feature of linear drivers is divided by a wrong squared speed when they crawl",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
v = LinearVehicle(road, [50, .5], 0, .05)
f = v.steering_features(v.lane_index)
check(abs(f[1] + .5 * v.LENGTH / .05 ** 2) < 1e-6 * abs(f[1]), f)
''')

# ---------------------------------------------------------------------------------------------------------------- C22
S("c22-behind-by-position", "C22", [(REG, "            return v1 if v1.front_distance_to(v2) > v2.front_distance_to(v1) else v2", "            return v1 if v1.front_distance_to(v2) > 0 else v2")],
  "two vehicles on lanes of equal priority whose ways converge, each having the other ahead of it, the second one being further behind",
  "at equal priority, the first vehicle yields as soon as the other is ahead of it, even if it is not the one behind",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.road.regulation import RegulatedRoad
from highway_env.vehicle.behavior import IDMVehicle
env = IntersectionEnv()
env.seed(0)
env.reset()
road = env.road
road.vehicles = []
a = IDMVehicle(road, [2., 20.], -np.pi / 2, 8.)
b = IDMVehicle(road, [-2., -20.], np.pi / 2 - .6, 8.)
n = 0
for k in range(200):
    rs = np.random.RandomState(k)
    b = IDMVehicle(road, [-2. + rs.uniform(-.5, .5), -rs.uniform(5, 30)], np.pi / 2 - rs.uniform(0, 1.2), 8.)
    if a.lane.priority == b.lane.priority and a.front_distance_to(b) > 0 and abs(a.front_distance_to(b) - b.front_distance_to(a)) > .01:
        n += 1
        want = a if a.front_distance_to(b) > b.front_distance_to(a) else b
        check(RegulatedRoad.respect_priorities(a, b) is want, (k, b))
check(n > 10, n)
''')

S("c22-linger", "C22", [(REG, "                if v.yield_timer >= self.YIELD_DURATION * self.REGULATION_FREQUENCY:", "                if v.yield_timer > self.YIELD_DURATION * self.REGULATION_FREQUENCY:")],
  "a vehicle that yielded and whose conflict is over at the next regulation instant",
  "yielding vehicles remain stopped for one more regulation period after their conflict is over",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.vehicle.behavior import IDMVehicle
env = IntersectionEnv()
env.seed(0)
env.reset()
road = env.road
v = IDMVehicle.make_on_lane(road, ("o0", "ir0", 0), 50, speed=8)
v.plan_route_to("o2")
w = IDMVehicle.make_on_lane(road, ("ir1", "il3", 0), 2, speed=5)
w.plan_route_to("o3")
road.vehicles = [v, w]
for s in range(0, 80):
    v.position = road.network.get_lane(("o0", "ir0", 0)).position(70 + s * .4, 0)
    v.on_state_update()
    road.enforce_road_rules()
    if getattr(v, "is_yielding", False):
        break
check(v.is_yielding)
road.vehicles = [v]
road.enforce_road_rules()
check(not v.is_yielding and v.target_speed == v.lane.speed_limit, (v.is_yielding, v.target_speed))
''')

S("c22-sparse-prediction", "C22", [(REG, "        times = np.arange(step, horizon, step)\n", "        times = np.arange(step, horizon, max(step, v1.WIDTH / max(v1.speed, v2.speed, 1e-3)))\n")],
  "two slow vehicles (below 8 m/s) whose predictions overlap only at instants that are no multiples of the larger step",
  "conflicts between slow vehicles are searched with a time step of up to several seconds",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.road.regulation import RegulatedRoad
from highway_env.vehicle.behavior import IDMVehicle
env = IntersectionEnv()
env.seed(0)
env.reset()
road = env.road
v = IDMVehicle.make_on_lane(road, ("ir0", "il2", 0), 4.5, speed=1.2)
v.plan_route_to("o2")
w = IDMVehicle.make_on_lane(road, ("ir1", "il3", 0), 7.4, speed=1.2)
w.plan_route_to("o3")
found = []
for s in np.linspace(0, 14, 60):
    w.position = road.network.get_lane(("ir1", "il3", 0)).position(s, 0)
    w.on_state_update()
    from highway_env import utils
    want = False
    for t in np.arange(.25, 3, .25):
        p, h = [x[0] for x in v.predict_trajectory_constant_speed([t])]
        q, g = [x[0] for x in w.predict_trajectory_constant_speed([t])]
        want = want or (np.linalg.norm(p - q) <= v.LENGTH and utils.rotated_rectangles_intersect((p, 1.5 * v.LENGTH, .9 * v.WIDTH, h), (q, 1.5 * w.LENGTH, .9 * w.WIDTH, g)))
    found.append((bool(want), bool(RegulatedRoad.is_conflict_possible(v, w))))
check(any(a for a, b in found) and all(a == b for a, b in found), found)
''')

# ---------------------------------------------------------------------------------------------------------------- C23
S("c23-merging-target", "C23", [(ME, "            if vehicle.lane_index == (\"b\", \"c\", 2) and isinstance(vehicle, ControlledVehicle):", "            if isinstance(vehicle, ControlledVehicle) and vehicle.target_lane_index == (\"b\", \"c\", 2):")],
  "a vehicle on the merging lane that has started to change lanes (or heads for the merging lane while still before it)",
  "the merging courtesy penalty is computed over vehicles heading for the merging lane instead of those on it",
  '''
from highway_env.envs.merge_env import MergeEnv
env = MergeEnv()
env.seed(0)
env.reset()
m = env.road.vehicles[-1]
m.position = env.road.network.get_lane(("b", "c", 2)).position(30, 0)
m.heading = 0
m.on_state_update()
m.target_lane_index = ("b", "c", 2)
m.speed = 10
a = env._reward(1)
m.target_lane_index = ("b", "c", 1)
b = env._reward(1)
check(m.lane_index == ("b", "c", 2) and abs(a - b) < 1e-9, (a, b))
''')

S("c23-arrived-crashed", "C23", [(IN, "        reward = self.ARRIVED_REWARD if self.has_arrived(vehicle) else reward\n", "        reward = self.ARRIVED_REWARD if self.has_arrived(vehicle) and not vehicle.crashed else reward\n")],
  "an agent that crashes on an exit road, beyond the arrival distance",
  "the arrival reward does not replace the collision reward of an agent that is past the arrival distance",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv()
env.seed(0)
env.reset()
v = env.vehicle
v.position = env.road.network.get_lane(("il1", "o1", 0)).position(30, 0)
v.heading = env.road.network.get_lane(("il1", "o1", 0)).heading_at(30)
v.on_state_update()
v.crashed = True
check(env._reward(1) == env.ARRIVED_REWARD, env._reward(1))
''')

S("c23-fast-offset", "C23", [(HW, "                          [self.config[\"collision_reward\"], self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD],", "                          [min(self.config[\"collision_reward\"], -1), self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD],")],
  "a highway with a configured collision reward between -1 and 0",
  "the highway reward is normalised with a collision reward of -1 when a milder one is configured",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"collision_reward": -.5, "vehicles_count": 0, "lanes_count": 1})
env.seed(0)
env.reset()
env.vehicle.speed = 20
check(abs(env._reward(1) - .5 / 1) < 1e-6, env._reward(1))
''')

# ---------------------------------------------------------------------------------------------------------------- C24
S("c24-agent-duration", "C24", [(IN, "        return vehicle.crashed \\\n            or self.steps >= self.config[\"duration\"] * self.config[\"policy_frequency\"] \\\n            or", "        return vehicle.crashed \\\n            or self.time >= self.config[\"duration\"] * self.config[\"simulation_frequency\"] \\\n            or")],
  "an intersection whose simulation frequency is not a multiple of its policy frequency (or with an interrupted step)",
  "the per-agent terminations of the intersection count simulation frames instead of decisions",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv({"simulation_frequency": 15, "policy_frequency": 4, "duration": 2, "initial_vehicle_count": 1, "spawn_probability": 0})
env.seed(0)
env.reset()
env.road.vehicles = [env.vehicle]
for _ in range(8):
    obs, reward, done, info = env.step(1)
check(done and info["agents_dones"] == (True,), (done, info))
''')

S("c24-rounded-frames", "C24", [(A, "        for _ in range(int(self.config[\"simulation_frequency\"] // self.config[\"policy_frequency\"])):", "        for _ in range(int(round(self.config[\"simulation_frequency\"] / self.config[\"policy_frequency\"]))):")],
  "a simulation frequency that is not a multiple of the policy frequency, with a fractional part of the ratio above one half",
  "steps simulate one frame too many, and the action is applied twice within some steps",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"simulation_frequency": 11, "policy_frequency": 4, "vehicles_count": 0})
env.seed(0)
env.reset()
for k in range(5):
    env.step(1)
    check(env.time == 2 * (k + 1), env.time)
''')

# ---------------------------------------------------------------------------------------------------------------- C25
S("c25-goal-heading", "C25", [(PA, "heading=lane.heading)", "heading=lane.heading % np.pi)")],
  "a parking goal on the row of spots whose lanes point to negative y",
  "the goal of half of the parking spots has the opposite heading of the spot",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
for s in range(12):
    env.seed(s)
    env.reset()
    lane = min(env.road.network.lanes_list(), key=lambda l: np.linalg.norm(l.position(l.length / 2, 0) - env.goal.position))
    check(abs(np.exp(1j * env.goal.heading) - np.exp(1j * lane.heading)) < 1e-6, (env.goal.heading, lane.heading))
''')

S("c25-norm-exponent", "C25", [(PA, "        return -np.power(np.dot(np.abs(achieved_goal - desired_goal), self.REWARD_WEIGHTS), p)", "        return -np.sqrt(np.dot(np.abs(achieved_goal - desired_goal), self.REWARD_WEIGHTS))")],
  "a reward computed with an exponent other than the default one (as hindsight replay with a different kurtosis does)",
  "the exponent passed to the goal reward function is ignored",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
a, b = np.array([.3, .2, 0, 0, 1, 0]), np.array([.1, .1, 0, 0, 0, 1])
x = np.dot(np.abs(a - b), env.REWARD_WEIGHTS)
for p in (.25, .5, 1, 2):
    check(abs(env.compute_reward(a, b, {}, p) + x ** p) < 1e-9, p)
''')

S("c25-any-success", "C25,C24", [(PA, "        success = all(self._is_success(agent_obs['achieved_goal'], agent_obs['desired_goal']) for agent_obs in obs)\n", "        success = self._is_success(obs[0]['achieved_goal'], obs[0]['desired_goal'])\n")],
  "several agents in the parking lot, the first of which reaches the goal before the others (or never)",
  "the end of a multi-agent parking episode depends on the first agent's success only",
  '''
from highway_env.envs.parking_env import ParkingEnv
cfg = {"controlled_vehicles": 2, "action": {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}},
       "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'],
                                                                           "scales": [100, 100, 5, 5, 1, 1], "normalize": False}}}
env = ParkingEnv(cfg)
env.seed(0)
env.reset()
v = env.controlled_vehicles[0]
v.position, v.heading = env.goal.position.copy(), env.goal.heading
check(not env._is_terminal())
''')

# ---------------------------------------------------------------------------------------------------------------- C26
S("c26-lane-zero", "C26", [(K, "        _id = lane_id if lane_id is not None else road.np_random.choice(len(road.network.graph[_from][_to]))", "        _id = lane_id or road.np_random.choice(len(road.network.graph[_from][_to]))")],
  "a highway configured with initial_lane_id 0",
  "requesting the first lane places the agent on a random lane",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"initial_lane_id": 0, "vehicles_count": 3})
for s in range(8):
    env.seed(s)
    env.reset()
    check(env.vehicle.lane_index[2] == 0, env.vehicle.lane_index)
''')

S("c26-clear-agent", "C26", [(IN, "                              vehicle in self.controlled_vehicles or not (is_leaving", "                              vehicle is self.vehicle or not (is_leaving")],
  "several agents at the intersection, another one than the first reaching the end of its exit road while the first is still driving",
  "agents other than the first are removed from the road when they leave it",
  '''
from highway_env.envs.intersection_env import MultiAgentIntersectionEnv
env = MultiAgentIntersectionEnv({"initial_vehicle_count": 1, "spawn_probability": 0})
env.seed(0)
env.reset()
v = env.controlled_vehicles[1]
lane = env.road.network.get_lane(("il1", "o1", 0))
v.position, v.heading = lane.position(lane.length - 15, 0), lane.heading_at(0)
v.on_state_update()
v.target_lane_index, v.route = v.lane_index, [v.lane_index]
env.step((1, 1))
check(v in env.road.vehicles)
''')

S("c26-spawn-near-agent", "C26", [(IN, "        for v in self.road.vehicles:\n            if np.linalg.norm(v.position - vehicle.position) < 15:\n                return\n", "        for v in self.road.vehicles:\n            if v.lane_index == vehicle.lane_index and np.linalg.norm(v.position - vehicle.position) < 15:\n                return\n")],
  "a vehicle spawned at an entry while another one is within 15 m of it on the neighbouring exit road",
  "vehicles are spawned within 15 m of vehicles that are on other lanes",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.vehicle.behavior import IDMVehicle
env = IntersectionEnv({"initial_vehicle_count": 1})
env.seed(0)
env.reset()
env.road.vehicles = [IDMVehicle.make_on_lane(env.road, ("il%d" % i, "o%d" % i, 0), 93, speed=5) for i in range(4)]
check(all(env._spawn_vehicle(0, spawn_probability=1, position_deviation=.1) is None for _ in range(20)))
''')

# ---------------------------------------------------------------------------------------------------------------- C27
S("c27-product-lower", "C27,C28,C29", [(I, "- np.dot(n(a[0]), p(b[1])) + np.dot(n(a[1]), n(b[1])),\n", "- np.dot(n(a[0]), p(b[1])) + np.dot(n(a[0]), n(b[1])),\n")],
  "the product of an interval around zero (or negative) with a negative interval",
  "the lower bound of interval products is too high",
  '''
from highway_env.interval import intervals_product
rs = np.random.RandomState(0)
for _ in range(500):
    a, b = np.sort(rs.uniform(-3, 3, 2)), np.sort(rs.uniform(-3, 3, 2))
    lo, hi = intervals_product(a, b)
    for x in a:
        for y in b:
            check(lo - 1e-9 <= x * y <= hi + 1e-9, (a, b, lo, hi))
''')

S("c27-section-corner", "C27", [(I, "               [v_i[1, 0], v_i[0, 1]],\n               [v_i[1, 0], v_i[1, 1]]]\n    corners_dist", "               [v_i[1, 0], v_i[1, 1]]]\n    corners_dist")],
  "the projection of a box on a direction with components of opposite signs",
  "one corner of the box is forgotten when a vector interval is projected on a direction",
  '''
from highway_env.interval import vector_interval_section
v = np.array([[0., 0.], [2., 3.]])
for h in np.linspace(0, 2 * np.pi, 40):
    d = np.array([np.cos(h), np.sin(h)])
    lo, hi = vector_interval_section(v, d)
    for x in v[:, 0]:
        for y in v[:, 1]:
            check(lo - 1e-9 <= np.dot([x, y], d) <= hi + 1e-9, h)
''')

# ---------------------------------------------------------------------------------------------------------------- C28
S("c28-perturbation-upper", "C28", [(I, "+ p(d) @ o_M - n(d) @ o_m + b @ u\n", "+ p(d) @ o_M + n(d) @ o_M + b @ u\n")],
  "a perturbation matrix with a negative entry and asymmetric perturbation bounds",
  "the upper bound of the interval predictor uses the wrong perturbation bound where the perturbation enters negatively",
  '''
from highway_env.interval import LPV
lpv = LPV([0.], [[-1.]], [np.zeros((1, 1))], d=[[-1.]], omega_i=[[-2.], [.5]])
x = 0.
for _ in range(30):
    lpv.step(.1)
    x += .1 * (-x + 2)
    lo, hi = lpv.change_coordinates(lpv.x_i_t, back=True, interval=True)[:, 0]
    check(lo - 1e-9 <= x <= hi + 1e-9, (lo, x, hi))
''')

S("c28-nominal-late", "C28", [(I, "        if is_metzler(self.a0):\n            self.x_i_t = self.step_interval_predictor(self.x_i_t, dt)\n        else:\n            self.x_i_t = self.step_naive_predictor(self.x_i_t, dt)\n", "        if is_metzler(self.a0, eps=1e-2):\n            self.x_i_t = self.step_interval_predictor(self.x_i_t, dt)\n        else:\n            self.x_i_t = self.step_naive_predictor(self.x_i_t, dt)\n")],
  "a system whose matrix is not Metzler by a small negative entry and has complex eigenvalues, so that coordinates are not changed",
  "the interval predictor that assumes a Metzler matrix is used for matrices with small negative off-diagonal entries",
  '''
import io
import contextlib
from highway_env.interval import LPV
a = np.array([[0., -.008, 0.], [0., 0., -.008], [-.008, 0., 0.]])
with contextlib.redirect_stdout(io.StringIO()):
    lpv = LPV([0., 0., 0.], a, [np.zeros((3, 3))], x_i=[[-9., -9., -9.], [9., 9., 9.]])
x = np.array([[s, t, u] for s in (-9., 9.) for t in (-9., 9.) for u in (-9., 9.)])
for _ in range(20):
    lpv.step(.5)
    x = x + .5 * x @ a.T
    lo, hi = lpv.change_coordinates(lpv.x_i_t, back=True, interval=True)
    check(np.all(lo - 1e-9 <= x) and np.all(x <= hi + 1e-9))
''')

# ---------------------------------------------------------------------------------------------------------------- C29
S("c29-comfort-bound", "C29", [(P, "        dv_i = np.clip(dv_i, -self.ACC_MAX, self.ACC_MAX)\n", "        dv_i = np.clip(dv_i, -self.ACC_MAX, self.COMFORT_ACC_MAX)\n")],
  "an uncertain driver far below its target speed, which accelerates by more than the comfortable acceleration",
  "the speed interval grows by at most the comfortable acceleration, though the driver can accelerate more",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
v = IntervalVehicle(road, [50, 0], 0, 10, target_speed=30, enable_lane_change=False)
r2 = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
w = LinearVehicle(r2, [50, 0], 0, 10, target_speed=30, enable_lane_change=False)
w.ACCELERATION_PARAMETERS = list(v.theta_a_i[1])
road.vehicles, r2.vehicles = [v], [w]
for _ in range(20):
    for r in (road, r2):
        r.act()
        r.step(.1)
    check(v.interval.speed[0] - 1e-6 <= w.speed <= v.interval.speed[1] + 1e-6, (v.interval.speed, w.speed))
''')

S("c29-forgotten-ranges", "C29", [(P, "                theta_b_i=getattr(vehicle, 'theta_b_i', None),\n", "")],
  "an interval vehicle with steering parameter ranges of its own, using the default partial observer",
  "the partial observer propagates the default steering ranges instead of the vehicle's own",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
box = np.array([[1., 1.], [9., 16.]])
v = IntervalVehicle(road, [50, 1.], 0, 20, enable_lane_change=False, theta_b_i=box)
w = IntervalVehicle.create_from(v)
check(np.array_equal(w.theta_b_i, box), w.theta_b_i)
''')

S("c29-collision-precheck", "C29", [(P, "        if not utils.point_in_rectangle(other.position,\n                                        self.interval.position[0] - self.LENGTH,\n                                        self.interval.position[1] + self.LENGTH):\n            return\n", "        if not self.interval.position[0, 0] - self.WIDTH <= other.position[0] <= self.interval.position[1, 0] + self.LENGTH:\n            return\n")],
  "a directly controlled vehicle touching the rear end of an interval vehicle's set of possible positions",
  "rear-end contacts with the uncertainty set of an interval vehicle are discarded by a too small pre-check",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
v = IntervalVehicle(road, [50, 0], 0, 20)
w = MDPVehicle(road, [46, 0], 0, 20)
v.check_collision(w)
check(v.crashed and w.crashed)
''')

# ---------------------------------------------------------------------------------------------------------------- C30

S("c30-observed-output", "C30", [(E, "            self.add_features(data, route[0], output_lane=self.target_lane_index)", "            self.add_features(data, route[0], output_lane=self.lane_index if self.lane_index[:2] == route[0][:2] else self.target_lane_index)")],
  "a multiple-model driver whose target lane is not its current lane (changing lanes, or past the end of its lane)",
  "the recorded steering outputs are those of following the current lane instead of the ones actually executed",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
v = MultipleModelVehicle(road, [30, 0], 0, 20, enable_lane_change=False, route=[("0", "1", 0)])
v.target_lane_index = ("0", "1", 1)
road.vehicles = [v]
road.act()
out = v.data[0][1]["lateral"]["outputs"][-1]
check(abs(out - v.steering_control(("0", "1", 1))) < 1e-9, (out, v.steering_control(("0", "1", 1))))
''')

# ---------------------------------------------------------------------------------------------------------------- C31
S("c31-release-both", "C31", [(G, "            if event.key == pygame.K_DOWN and action_type.longitudinal:\n                action[0] = 0\n", "            if event.key == pygame.K_DOWN and action_type.longitudinal:\n                action[:] = 0\n")],
  "steering held while the brake key is released",
  "releasing the brake key also releases the steering",
  '''
import pygame
from highway_env.envs.common.action import ContinuousAction
from highway_env.envs.common.graphics import EventHandler
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
env.seed(0)
env.reset()
ev = lambda t, k: EventHandler.handle_event(env.action_type, pygame.event.Event(t, key=k))
ev(pygame.KEYDOWN, pygame.K_DOWN)
ev(pygame.KEYDOWN, pygame.K_RIGHT)
ev(pygame.KEYUP, pygame.K_DOWN)
check(np.allclose(env.action_type.last_action, [0, .7]), env.action_type.last_action)
''')

S("c31-shared-zoom", "C31", [(RG, "                self.scaling *= 1 / self.SCALING_FACTOR\n", "                WorldSurface.INITIAL_SCALING = self.scaling = self.scaling / self.SCALING_FACTOR\n")],
  "zooming in one viewer, then opening another viewer without a configured scaling",
  "zooming changes the initial scaling of viewers opened later",
  '''
import pygame
from highway_env.road.graphics import WorldSurface
a = WorldSurface((100, 100), 0, pygame.Surface((100, 100)))
before = a.scaling
a.handle_event(pygame.event.Event(pygame.KEYDOWN, key=pygame.K_l))
b = WorldSurface((100, 100), 0, pygame.Surface((100, 100)))
check(b.scaling == before, b.scaling)
''')

# ---------------------------------------------------------------------------------------------------------------- C32
S("c32-reverse-prediction", "C32", [(C, "coordinates[0] + self.speed * t, 0)", "coordinates[0] + max(self.speed, 0) * t, 0)")],
  "the constant-speed prediction of a vehicle that is reversing",
  "vehicles in reverse are predicted to stand still",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
v = ControlledVehicle(road, [50, 0], 0, -3)
p, h = v.predict_trajectory_constant_speed([1., 2.])
check(np.allclose(p, [[47, 0], [44, 0]]), p)
''')

S("c32-shallow-route", "C32", [(C, "        v = copy.deepcopy(self)\n        t = 0\n", "        v = copy.copy(self)\n        v.position = self.position.copy()\n        v.action = dict(self.action)\n        t = 0\n")],
  "predicting a trajectory past the end of the current lane of a planned route",
  "predicting consumes the vehicle's route",
  '''
from highway_env.envs.roundabout_env import RoundaboutEnv
env = RoundaboutEnv()
env.seed(0)
env.reset()
r = list(env.vehicle.route)
env.vehicle.predict_trajectory(["FASTER"] * 8, 1, .5, 1 / 15)
check(env.vehicle.route == r, env.vehicle.route)
''')


# ================================================================================================================ second batch
S("c01-next-lane-global-rng", "C01", [(C, "                                                                 position=self.position,\n                                                                 np_random=self.road.np_random)", "                                                                 position=self.position)")],
  "vehicles without a route reaching a junction with several outgoing roads",
  "the road taken at a junction is drawn from numpy's global generator",
  '''
from highway_env.envs.roundabout_env import RoundaboutEnv
from highway_env.vehicle.behavior import IDMVehicle


def run(g):
    env = RoundaboutEnv()
    env.seed(7)
    env.reset()
    for v in env.road.vehicles:
        v.route = None
    np.random.seed(g)
    for _ in range(10):
        env.road.act()
        for _ in range(15):
            env.road.act()
            env.road.step(1 / 15)
    return [tuple(v.position) for v in env.road.vehicles]


runs = [run(g) for g in range(4)]
check(all(r == runs[0] for r in runs), "the episodes differ")
''')

S("c01-time-carries-over", "C01,C24", [(A, "        self.time = self.steps = 0\n        self.done = False\n", "        self.steps = 0\n        self.done = False\n")],
  "an episode that ended within a policy period (a crash), then a reset",
  "the simulation time is not reset, so that the actions of the next episode are applied in the middle of the steps",
  '''
from highway_env.envs.highway_env import HighwayEnv


def play(env):
    env.seed(1)
    env.reset()
    return [env.step(a)[0].tolist() for a in (0, 2, 3)]


env = HighwayEnv({"vehicles_count": 5})
ref = play(env)
for k in range(3):
    env.reset()
    for _ in range(2):
        env.step(1)
    env.vehicle.crashed = True
    env.step(1)
    check(play(env) == ref, k)
''')

S("c01-regulation-phase", "C01,C22,C26", [(REG, "        super().__init__(network, vehicles, obstacles, np_random, record_history)\n        self.steps = 0\n", "        super().__init__(network, vehicles, obstacles, np_random, record_history)\n        self.steps = getattr(RegulatedRoad, \"_phase\", 0)\n"), (REG, "        self.steps += 1\n", "        self.steps += 1\n        RegulatedRoad._phase = self.steps % 15\n")],
  "two intersection episodes in one process, the first of a length that is not a multiple of the regulation period",
  "the phase of the regulation is carried over from the previous road of the process",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.road.regulation import RegulatedRoad
env = IntersectionEnv()


def run():
    env.seed(3)
    env.reset()
    return [env.step(1)[0].tolist() for _ in range(4)] + [v.target_speed for v in env.road.vehicles]


first = run()
for _ in range(4):
    env.road.step(1 / 15)
    check(run() == first, "the episodes differ")
''')

S("c02-config-shared", "C02", [(A, "                setattr(result, k, copy.deepcopy(v, memo))", "                setattr(result, k, v if k == \"config\" else copy.deepcopy(v, memo))")],
  "editing the configuration of an environment after it has been copied",
  "copies share their configuration dictionary",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 5})
c = copy.deepcopy(env)
env.configure({"duration": 1})
check(c.config["duration"] == 40, c.config["duration"])
''')

S("c02-two-generators", "C02", [(A, "                setattr(result, k, copy.deepcopy(v, memo))", "                setattr(result, k, copy.deepcopy(v, memo if k != \"np_random\" else None))")],
  "copying an environment whose road and environment both draw random numbers afterwards (spawning of random drivers, random routes)",
  "in a copy the road draws from another generator than the environment, so that copies diverge from the original",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv({"other_vehicles_type": "highway_env.vehicle.behavior.AggressiveVehicle", "spawn_probability": 1.})
env.seed(5)
env.reset()
c = copy.deepcopy(env)
for _ in range(6):
    a, b = env.step(1)[0], c.step(1)[0]
    pa = [[v.position.tolist(), list(v.ACCELERATION_PARAMETERS)] for v in env.road.vehicles if hasattr(v, "ACCELERATION_PARAMETERS")]
    pb = [[v.position.tolist(), list(v.ACCELERATION_PARAMETERS)] for v in c.road.vehicles if hasattr(v, "ACCELERATION_PARAMETERS")]
    check(np.array_equal(a, b) and pa == pb, "the copy diverges")
''')

S("c03-caution-of-class", "C03,C01", [(A, "                    v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000\n", "                    type(v).LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000\n")],
  "setting a preferred lane on one environment, then simulating another one",
  "setting a preferred lane makes the drivers of every environment less cautious",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 5})
env.set_preferred_lane(1)
check(all(v.LANE_CHANGE_MAX_BRAKING_IMPOSED == 2 for v in env.road.vehicles[1:]), "changed")
''')

S("c03-idm-only-routes", "C03", [(A, "            if isinstance(v, IDMVehicle):\n                v.set_route_at_intersection(_to)\n", "            if type(v) is IDMVehicle:\n                v.set_route_at_intersection(_to)\n")],
  "traffic made of a subclass of the IDM driver (linear, aggressive...)",
  "setting the route at the next intersection skips the drivers of derived classes",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv({"other_vehicles_type": "highway_env.vehicle.behavior.LinearVehicle"})
env.seed(0)
env.reset()
cs = [env.set_route_at_intersection(k) for k in range(3)]
check(any(len({str(c.road.vehicles[i].route) for c in cs}) > 1 for i in range(len(env.road.vehicles)) if hasattr(env.road.vehicles[i], "timer")), "no route changed")
''')

S("c05-absolute-intentions", "C05", [(O, "observe_intentions=self.observe_intentions)", "observe_intentions=self.observe_intentions or self.absolute)")],
  "an absolute kinematics observation with destination features and intentions hidden",
  "absolute observations reveal the other vehicles' destinations",
  '''
from highway_env.envs.roundabout_env import RoundaboutEnv
env = RoundaboutEnv({"observation": {"type": "Kinematics", "absolute": True, "features": ["presence", "x", "y", "cos_d", "sin_d"], "see_behind": True}})
for s in range(5):
    env.seed(s)
    o = env.reset()
    check(np.all(o[1:, 3:] == 0), o)
''')

S("c05-range-of-the-moment", "C05", [(O, "            self.features_range = {\n                \"x\": [-5.0 * MDPVehicle.SPEED_MAX, 5.0 * MDPVehicle.SPEED_MAX],", "            features_range = {\n                \"x\": [-5.0 * MDPVehicle.SPEED_MAX, 5.0 * MDPVehicle.SPEED_MAX],"), (O, "        for feature, f_range in self.features_range.items():\n            if feature in df:\n                df[feature] = utils.lmap(df[feature], [f_range[0], f_range[1]], [-1, 1])\n                if self.clip:", "        for feature, f_range in (self.features_range or features_range).items():\n            if feature in df:\n                df[feature] = utils.lmap(df[feature], [f_range[0], f_range[1]], [-1, 1])\n                if self.clip:")],
  "an ego vehicle that drives from a road to one with another number of lanes (merge, roundabout) with the default ranges",
  "the scale of the lateral position changes during the episode",
  '''
from highway_env.envs.merge_env import MergeEnv
env = MergeEnv({"observation": {"type": "Kinematics", "absolute": True, "clip": False}})
env.seed(0)
env.reset()
for _ in range(12):
    o, _, d, _ = env.step(1)
    check(abs(o[0, 2] - env.vehicle.position[1] / 8) < 1e-9, (o[0, 2], env.vehicle.position))
    if d:
        break
''')

S("c06-layer-of-first", "C06", [(O, "                        self.grid[layer, cell[1], cell[0]] = vehicle[feature]", "                        if not self.grid[layer, cell[1], cell[0]]:\n                            self.grid[layer, cell[1], cell[0]] = vehicle[feature]")],
  "two vehicles in one cell, the first of which has a zero feature (no lateral speed)",
  "a cell with several vehicles mixes the features of different vehicles",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 2, "observation": {"type": "OccupancyGrid"}})
env.seed(0)
env.reset()
e, a, b = env.road.vehicles
for v, dx, vy, s in ((a, 0.5, 0, 20), (b, 1.5, .5, 30)):
    v.position = e.position + [10 + dx, 0]
    v.heading, v.speed = vy, s
o = env.observation_type.observe()
y, x = [i[0] for i in np.where(o[0] * (np.arange(11)[None, :] > 6))]
rows = [[1, v.velocity[0] - e.velocity[0], v.velocity[1]] for v in (a, b)]
check(any(np.allclose(o[:, y, x], [1, r[1] / 60, r[2] / 60]) for r in rows), o[:, y, x])
''')

S("c07-forbidden-left", "C07", [(MDP, "        next_state[left] = clip_position(h[left], i[left] - 1, j[left] + 1, grid)\n" if False else "    next_state[left] = clip_position(h[left], i[left] - 1, j[left] + 1, grid)\n", "    next_state[left] = clip_position(h[left], np.abs(i[left] - 1), j[left] + 1, grid)\n")],
  "a left lane change on the leftmost lane of the finite process",
  "going left from the leftmost lane leads to the second lane instead of staying",
  '''
from highway_env.envs.common.finite_mdp import transition_model, clip_position
grid = np.zeros((3, 3, 5))
t = np.fromfunction(lambda h, i, j, a: transition_model(h, i, j, a, grid), (3, 3, 5, 5), dtype=int)
for h in range(3):
    for j in range(4):
        check(t[h, 0, j, 0] == np.ravel_multi_index((h, 0, j + 1), grid.shape), (h, j))
''')

S("c09-stale-frame", "C09", [(A, "        if mode == 'rgb_array':\n            return image\n        self.should_update_rendering = False\n", "        self.should_update_rendering = False\n        if mode == 'rgb_array':\n            return image\n")],
  "frames requested without simulation steps in between, the scene being edited",
  "the frame of the scene before the edit is returned",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "vehicles_count": 8})
env.seed(0)
env.reset()
a = env.render("rgb_array").copy()
for v in env.road.vehicles[1:]:
    v.position = env.vehicle.position + [500, 0]
b = env.render("rgb_array").copy()
blue = lambda im: int(np.all(im == [100, 200, 255], axis=-1).sum())
check(blue(b) == 0, blue(b))
''')

S("c09-planned-from-simulation", "C09", [(G, "                                                                          1 / self.env.config[\"policy_frequency\"],\n                                                                          1 / 3 / self.env.config[\"policy_frequency\"],", "                                                                          1,\n                                                                          1 / 3 / self.env.config[\"policy_frequency\"],")],
  "displaying planned actions with a policy frequency other than 1 Hz",
  "the planned trajectory holds every action for one second instead of one policy period",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "vehicles_count": 3, "policy_frequency": 5})
env.seed(0)
env.reset()
env.render("rgb_array")
c = copy.deepcopy(env.vehicle)
env.viewer.set_agent_action_sequence([1, 1, 1])
last = env.viewer.vehicle_trajectory[-1]
check(abs(last.position[0] - env.vehicle.position[0] - 25 * .6) < 1, last.position - env.vehicle.position)
''')

S("c09-visible-corner", "C09", [(RG, "        return -margin < x < self.get_width() + margin and -margin < y < self.get_height() + margin", "        return -margin < x < self.get_width() and -margin < y < self.get_height() + margin")],
  "a vehicle whose centre is outside the right border of the frame while its body reaches into it",
  "vehicles entering the frame from the right are not drawn until their centre is inside",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "vehicles_count": 1})
env.seed(0)
env.reset()
v = env.road.vehicles[1]
v.position = env.vehicle.position + [.7 * 600 / 5.5 + 1., 0]
im = env.render("rgb_array")
check(np.all(im == [100, 200, 255], axis=-1).sum() > 20, "not drawn")
''')

S("c09-history-speed", "C09", [(VG, "                                  int(simulation * duration),\n", "                                  int(15 * duration),\n")],
  "recording histories with a simulation frequency below 15 Hz",
  "the displayed past covers the last 30 states whatever the simulation frequency, instead of the last two seconds",
  '''
import pygame
from highway_env.vehicle.graphics import VehicleGraphics
from highway_env.road.graphics import WorldSurface
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
pygame.init()
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0), record_history=True)
v = Vehicle(road, [100, 0], 0, 20)
road.vehicles.append(v)
for _ in range(30):
    v.step(.2)
shown = []
VehicleGraphics.display = classmethod(lambda cls, vehicle, *a, **k: shown.append(vehicle.position[0]))
VehicleGraphics.display_history(v, WorldSurface((300, 100), 0, pygame.Surface((300, 100))), simulation=5, offscreen=True)
check(min(shown) >= v.position[0] - 2 * 20 - 1e-6, shown)
''')

S("c10-half-pairs", "C10", [(R, "        for vehicle in self.vehicles:\n            for other in self.vehicles:\n                vehicle.check_collision(other)\n", "        for i, vehicle in enumerate(self.vehicles):\n            for other in self.vehicles[i + 1:]:\n                vehicle.check_collision(other)\n")],
  "a vehicle running into one that comes earlier in the list and has already crashed",
  "running into a crashed vehicle is not a crash if that vehicle comes earlier in the list",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a, b = Vehicle(road, [50, 0], 0, 0), Vehicle(road, [47, 0], 0, 10)
a.crashed = True
road.vehicles += [a, b]
road.step(.1)
check(b.crashed, "not crashed")
''')

S("c10-reverse-crash", "C10,C11", [(K, "            self.action['acceleration'] = -1.0*self.speed\n", "            self.action['acceleration'] = -1.0*abs(self.speed)\n")],
  "a vehicle that crashes while reversing",
  "a vehicle that crashed in reverse accelerates backwards instead of braking",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a = Vehicle(road, [50, 0], 0, -5)
a.crashed = True
for _ in range(20):
    a.step(.1)
check(-5 < a.speed <= 0, a.speed)
''')

S("c10-obstacle-by-flag", "C10", [(K, "            if not self.COLLISIONS_ENABLED:\n                return\n\n            if self._is_colliding(other):\n                self.speed = min([self.speed, 0], key=abs)", "            if not self.COLLISIONS_ENABLED or other.hit:\n                return\n            if self._is_colliding(other):\n                self.speed = min([self.speed, 0], key=abs)")],
  "a second vehicle hitting an obstacle that was already hit",
  "obstacles that were hit once no longer stop anyone",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
o = Obstacle(road, [50, 0])
o.hit = True
a = Vehicle(road, [48, 0], 0, 3)
road.vehicles.append(a)
road.objects.append(o)
road.step(.1)
check(a.crashed, "not crashed")
''')

S("c11-length-of-class", "C11", [(K, "        self.heading += self.speed * np.sin(beta) / (self.LENGTH / 2) * dt\n", "        self.heading += self.speed * np.sin(beta) / (Vehicle.LENGTH / 2) * dt\n")],
  "vehicles of another length (trucks, subclasses)",
  "long vehicles turn as fast as cars",
  '''
from highway_env.vehicle.kinematics import Vehicle


class Truck(Vehicle):
    LENGTH = 12.


v = Truck(None, [0, 0], 0, 5)
v.act({"steering": .3, "acceleration": 0})
v.step(.1)
check(abs(v.heading - 5 * np.sin(np.arctan(np.tan(.3) / 2)) / 6 * .1) < 1e-9, v.heading)
''')

S("c12-damping-cut", "C12", [(D, "        if abs(speed_body_x) < 1:\n            return A0, np.zeros((2, 2, 2)), B*0", "        if speed_body_x < 1.5:\n            return A0, np.zeros((2, 2, 2)), B*0")],
  "the linearised matrices of a vehicle between 1 and 1.5 m/s",
  "the linearised dynamics of slow vehicles lack the tyre forces",
  '''
from highway_env.vehicle.dynamics import BicycleVehicle
v = BicycleVehicle(None, [0, 0], 0, 1.2)
v.act({"steering": 1e-6, "acceleration": 0})
check(np.allclose(v.derivative, v.derivative_linear, rtol=1e-3, atol=1e-9), (v.derivative, v.derivative_linear))
''')

S("c13-default-width", "C13", [(L, "        is_close = np.abs(lateral) <= 2 * self.width_at(longitudinal) and \\\n", "        is_close = np.abs(lateral) <= 2 * self.DEFAULT_WIDTH and \\\n")],
  "lanes of another width than the default one",
  "reachability ignores the width of the lane",
  '''
from highway_env.road.lane import StraightLane
check(StraightLane([0, 0], [100, 0], width=10).is_reachable_from(np.array([50, 15])), "wide")
check(not StraightLane([0, 0], [100, 0], width=2).is_reachable_from(np.array([50, 6])), "narrow")
''')

S("c13-heading-beyond-end", "C13", [(L, "        angle = np.abs(wrap_to_pi(heading - self.heading_at(s)))", "        angle = np.abs(wrap_to_pi(heading - self.heading_at(np.clip(s, 0, self.length))))")],
  "a position before the start or past the end of a curved lane",
  "the heading error beyond the ends of curved lanes is measured at their ends",
  '''
from highway_env.road.lane import SineLane
l = SineLane([0, 0], [50, 0], 5, .2, 0)
p, h = l.position(60, 0), l.heading_at(60)
check(abs(l.distance_with_heading(p, h) - 10) < 1e-9, l.distance_with_heading(p, h))
''')

S("c13-zero-known", "C13", [(L, "        if not longitudinal:\n            longitudinal, _ = self.local_coordinates(position)\n        return longitudinal > self.length - self.VEHICLE_LENGTH / 2", "        if longitudinal is None:\n            longitudinal = np.linalg.norm(position - self.position(0, 0))\n        return longitudinal > self.length - self.VEHICLE_LENGTH / 2")],
  "a position beside or behind a lane, at a distance from its start that exceeds its length",
  "positions far beside or before the lane count as past its end",
  '''
from highway_env.road.lane import StraightLane
l = StraightLane([0, 0], [20, 0])
check(not l.after_end(np.array([-30., 0.])), "before the start")
check(not l.after_end(np.array([5., 30.])), "beside")
check(l.after_end(np.array([19., 0.])), "end")
''')

S("c14-one-lane-ahead", "C14,C32,C22", [(R, "        while len(route) > 1 and longitudinal > self.get_lane(route[0]).length:\n", "        if len(route) > 1 and longitudinal > self.get_lane(route[0]).length:\n")],
  "a position beyond the second lane of a route (short lanes in a junction)",
  "positions along a route stop at its second lane, extended",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv()
net = env.road.network
route = [("o0", "ir0", 0), ("ir0", "il1", 0), ("il1", "o1", 0)]
s = net.get_lane(route[0]).length + net.get_lane(route[1]).length + 10
p, h = net.position_heading_along_route(route, s, 0)
check(np.allclose(p, net.get_lane(route[2]).position(10, 0)), p)
''')

S("c14-depth-first", "C14", [(R, "            (node, path) = queue.pop(0)\n", "            (node, path) = queue.pop()\n")],
  "a network with several paths of different lengths between two nodes",
  "the path found is not the shortest",
  '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
net = RoadNetwork()
for a, b in ("ab", "bd", "ac", "ce", "ed"):
    net.add_lane(a, b, StraightLane([0, 0], [1, 0]))
check(net.shortest_path("a", "d") == ["a", "b", "d"], net.shortest_path("a", "d"))
''')

S("c14-route-head-exact", "C14", [(R, "            if route[0][:2] == current_index[:2]:  # We just finished the first step of the route, drop it.", "            if route[0] == current_index:  # We just finished the first step of the route, drop it.")],
  "a planned route whose current step has no lane number, or another one than the vehicle's",
  "finished route steps without a lane number are not dropped, and the planned road is not followed",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
net = IntersectionEnv().road.network
for k in range(20):
    route = [("o0", "ir0", None), ("ir0", "il1", None), ("il1", "o1", None)]
    n = net.next_lane(("o0", "ir0", 0), route, np.array([2, 12]), np.random.RandomState(k))
    check(n == ("ir0", "il1", 0), n)
''')

S("c15-crashed-ghost", "C15", [(R, "            if v is not vehicle and not isinstance(v, Landmark):  # self.network.is_connected_road(v.lane_index,", "            if v is not vehicle and not isinstance(v, Landmark) and not getattr(v, \"crashed\", False):  # self.network.is_connected_road(v.lane_index,")],
  "a crashed vehicle ahead on the lane",
  "crashed vehicles are not seen as neighbours",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a, b = Vehicle(road, [50, 0], 0, 10), Vehicle(road, [90, 0], 0, 0)
b.crashed = True
road.vehicles += [a, b]
check(road.neighbour_vehicles(a)[0] is b, "not seen")
''')

S("c15-margin-of-width", "C15", [(R, "                if not lane.on_lane(v.position, s_v, lat_v, margin=1):", "                if not lane.on_lane(v.position, s_v, lat_v, margin=v.WIDTH / 2):")],
  "vehicles or objects of another width close to the border of a lane",
  "narrow vehicles straddling a lane border are not seen, and wide ones too far are",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a, b = Vehicle(road, [50, 0], 0, 10), Vehicle(road, [90, -2.8], 0, 0)
b.WIDTH = 1
road.vehicles += [a, b]
check(road.neighbour_vehicles(a)[0] is b, "not seen")
''')

S("c16-class-length", "C16", [(C, "        steering_angle = np.arcsin(np.clip(self.LENGTH / 2 / utils.not_zero(self.speed) * heading_rate_command,", "        steering_angle = np.arcsin(np.clip(Vehicle.LENGTH / 2 / utils.not_zero(self.speed) * heading_rate_command,")],
  "controlled vehicles of another length",
  "the steering command of long vehicles is too weak",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
v = ControlledVehicle(road, [50, 1], 0, 20)
v.LENGTH = 10
s = v.steering_control(("0", "1", 0))
h = np.arcsin(-5 / 3 / 20)
check(abs(s - np.arcsin(10 / 2 / 20 * 5 * h)) < 1e-9, s)
''')

S("c16-pursuit-of-centre", "C16", [(C, "        lane_next_coords = lane_coords[0] + self.speed * self.PURSUIT_TAU\n        lane_future_heading = target_lane.heading_at(lane_next_coords)\n", "        lane_next_coords = min(lane_coords[0] + self.speed * self.PURSUIT_TAU, target_lane.length)\n        lane_future_heading = target_lane.heading_at(lane_next_coords)\n")],
  "driving at high speed past the end of a curved lane that has no successor, or close to the end of one",
  "the anticipated heading is the one at the end of the lane",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import SineLane
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
lane = SineLane([0, 0], [60, 0], 3, .2, 0)
net.add_lane("a", "b", lane)
road = Road(net, np_random=np.random.RandomState(0))
v = ControlledVehicle(road, lane.position(59.5, 0), lane.heading_at(61.5), 20)
s = v.steering_control(("a", "b", 0))
check(abs(s) < 1e-9, s)
''')

S("c17-lanes-of-current-road", "C17", [(C, "            target_lane_index = _from, _to, np.clip(_id + 1, 0, len(self.road.network.graph[_from][_to]) - 1)\n", "            target_lane_index = _from, _to, np.clip(_id + 1, 0, len(self.road.network.all_side_lanes(self.lane_index)) - 1)\n")],
  "a lane change to the right asked while the target lane is already on the next road, which has another number of lanes",
  "the number of lanes of the current road limits the lane changes on the target road",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import MDPVehicle
net = RoadNetwork()
for k in range(2):
    net.add_lane("a", "b", StraightLane([0, 4 * k], [100, 4 * k]))
for k in range(3):
    net.add_lane("b", "c", StraightLane([100, 4 * k], [200, 4 * k]))
road = Road(net, np_random=np.random.RandomState(0))
v = MDPVehicle(road, [99.5, 4], 0, 20)
v.on_state_update()
v.target_lane_index = ("b", "c", 1)
v.lane_index = ("a", "b", 1)
v.position[0] = 100.2
v.act("LANE_RIGHT")
check(tuple(v.target_lane_index) == ("b", "c", 2), v.target_lane_index)
''')

S("c17-decision-twice", "C17,C24", [(A, "                    and self.time % int(self.config[\"simulation_frequency\"] // self.config[\"policy_frequency\"]) == 0:", "                    and self.time % max(int(self.config[\"simulation_frequency\"] // self.config[\"policy_frequency\"]) // 4 * 4, 1) == 0:")],
  "a number of simulation steps per decision that is not a multiple of four",
  "the action is applied at the wrong instants: twice in some decisions",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "lanes_count": 8, "initial_lane_id": 1})
env.seed(0)
env.reset()
calls = []
act = env.action_type.act
env.action_type.act = lambda a: (calls.append(env.time), act(a))
for _ in range(5):
    env.step(1)
check(calls == [0, 15, 30, 45, 60], calls)
''')

S("c18-clip-by-space", "C18", [(ACT, "        if self.clip:\n            action = np.clip(action, -1, 1)\n", "        if self.clip and not self.space().contains(action):\n            action = np.clip(action, -1, 1) if np.max(action) > 1 else action\n")],
  "an action below -1 while clipping is on",
  "actions are only clipped from above",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
env.seed(0)
env.reset()
env.action_type.act(np.array([-3., 0.5]))
check(env.vehicle.action["acceleration"] == -5, env.vehicle.action)
''')

S("c18-agents-share-last", "C18,C31", [(ACT, "        for agent_action, action_type in zip(action, self.agents_action_types):\n            action_type.act(agent_action)", "        for agent_action, action_type in zip(action, sorted(self.agents_action_types, key=lambda t: t.controlled_vehicle.crashed)):\n            action_type.act(agent_action)")],
  "several agents of which an earlier one has crashed",
  "once an agent crashed, the others receive each other's actions",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv({"controlled_vehicles": 3, "action": {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}}, "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'], "scales": [100, 100, 5, 5, 1, 1], "normalize": False}}})
env.seed(0)
env.reset()
env.controlled_vehicles[0].crashed = True
env.action_type.act((np.array([0., 0.]), np.array([.2, 0.]), np.array([.4, 0.])))
check([round(v.action["acceleration"], 6) for v in env.controlled_vehicles[1:]] == [1, 2], [v.action for v in env.controlled_vehicles])
''')

S("c19-target-lane-leader", "C19", [(B, "        front_vehicle, rear_vehicle = self.road.neighbour_vehicles(self)\n        # Lateral: MOBIL\n", "        front_vehicle, rear_vehicle = self.road.neighbour_vehicles(self, self.target_lane_index)\n        # Lateral: MOBIL\n")],
  "a driver changing lane behind a slower vehicle of its present lane",
  "a driver that changes lane forgets the vehicle ahead of it",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a, b = IDMVehicle(road, [50, 0], 0, 20, target_speed=20), IDMVehicle(road, [75, 0], 0, 10)
road.vehicles += [a, b]
a.target_lane_index = ("0", "1", 1)
a.act()
check(a.action["acceleration"] < -3, a.action)
''')

S("c19-comfort-limit", "C19", [(B, "        action['acceleration'] = np.clip(action['acceleration'], -self.ACC_MAX, self.ACC_MAX)\n", "        action['acceleration'] = np.clip(action['acceleration'], -self.ACC_MAX, self.ACC_MAX) if front_vehicle else min(action['acceleration'], self.ACC_MAX)\n")],
  "a driver far above its target speed on a free road",
  "the deceleration on a free road is not limited to the maximum",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a = IDMVehicle(road, [50, 0], 0, 30, target_speed=10)
road.vehicles.append(a)
a.act()
check(a.action["acceleration"] == -6, a.action)
''')

S("c20-abort-arrived", "C20", [(B, "                            and v.lane_index != self.target_lane_index \\\n", "                            and v is not self.road.neighbour_vehicles(self)[0] \\\n")],
  "an ongoing lane change towards a lane on which another vehicle already drives closely ahead",
  "lane changes are aborted because of vehicles already on the target lane",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a, b = IDMVehicle(road, [50, 0], 0, 20), IDMVehicle(road, [65, 4], 0, 20)
road.vehicles += [a, b]
a.target_lane_index = ("0", "1", 1)
a.act()
check(a.target_lane_index == ("0", "1", 1), a.target_lane_index)
''')

S("c20-polite-sign", "C20", [(B, "                                                             + old_following_pred_a - old_following_a)\n", "                                                             - old_following_pred_a + old_following_a)\n")],
  "polite drivers (politeness above zero) with a follower on their present lane",
  "the advantage of the old follower counts against the lane change",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a, f = IDMVehicle(road, [50, 0], 0, 20, target_speed=20), IDMVehicle(road, [30, 0], 0, 25, target_speed=25)
road.vehicles += [a, f]
a.POLITENESS = .5
check(a.mobil(("0", "1", 1)), "no change although the follower gains")
''')

S("c20-forbidden-on-route", "C20", [(B, "            if not self.road.network.get_lane(lane_index).is_reachable_from(self.position):\n                continue\n", "            if not self.route and not self.road.network.get_lane(lane_index).is_reachable_from(self.position):\n                continue\n")],
  "a driver with a planned route next to a forbidden lane",
  "drivers with a route change to forbidden lanes",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.behavior import IDMVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [500, 0]))
net.add_lane("a", "b", StraightLane([0, 4], [500, 4], forbidden=True))
road = Road(net, np_random=np.random.RandomState(0))
a, b = IDMVehicle(road, [50, 0], 0, 20, target_speed=25, route=[("a", "b", None)], timer=1.5), IDMVehicle(road, [70, 0], 0, 5)
road.vehicles += [a, b]
a.act()
check(a.target_lane_index == ("a", "b", 0), a.target_lane_index)
''')

S("c21-reverse-gap", "C21", [(B, "            d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED\n", "            d_safe = self.DISTANCE_WANTED + abs(ego_vehicle.speed) * self.TIME_WANTED\n")],
  "a linear driver that rolls backwards behind another vehicle",
  "the safe gap grows with the speed in reverse",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a, b = LinearVehicle(road, [50, 0], 0, -2), LinearVehicle(road, [61, 0], 0, 0)
f = a.acceleration_features(a, b)
check(f[2] == 0, f)
''')

S("c21-class-parameters", "C21", [(B, "        output = np.dot(self.ACCELERATION_PARAMETERS, features)\n", "        output = np.dot(type(self).ACCELERATION_PARAMETERS, features)\n")],
  "collecting data from a linear driver whose parameters were randomised",
  "the recorded outputs are those of the class's parameters instead of the driver's own",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a = LinearVehicle(road, [50, 0], 0, 20, target_speed=25)
road.vehicles.append(a)
a.randomize_behavior()
a.act()
d = a.data["longitudinal"]
check(np.allclose(d["outputs"][0], np.dot(a.ACCELERATION_PARAMETERS, d["features"][0])), d)
''')

S("c22-length-of-first", "C22", [(REG, "                                                  (position_2, 1.5*v2.LENGTH, 0.9*v2.WIDTH, heading_2)):", "                                                  (position_2, 1.5*v1.LENGTH, 0.9*v2.WIDTH, heading_2)):")],
  "a conflict with a longer vehicle (a truck) later in the list",
  "the conflict test uses the length of the first vehicle for both",
  '''
from highway_env.road.regulation import RegulatedRoad
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.behavior import IDMVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0]))
net.add_lane("c", "d", StraightLane([0, 4.5], [100, 4.5 + 20]))
road = RegulatedRoad(net, np_random=np.random.RandomState(0))


class Long(IDMVehicle):
    LENGTH = 20.


a, b = IDMVehicle(road, [40, 0], 0, .1), Long(road, [40, 0], 0, .1)
b.position, b.heading = np.array([40., 4.6]), np.pi / 4
b.lane_index = ("c", "d", 0)
net.add_lane("e", "f", StraightLane([37, 1.6], [67, 31.6]))
b.position = np.array([40., 4.6])
b.lane_index, b.lane = ("e", "f", 0), net.get_lane(("e", "f", 0))
b.target_lane_index = b.lane_index
check(RegulatedRoad.is_conflict_possible(a, b), "no conflict")
''')

S("c22-yield-released-slow", "C22", [(REG, "                    v.target_speed = v.lane.speed_limit\n", "                    v.target_speed = min(v.lane.speed_limit, max(v.speed, 5))\n")],
  "a vehicle released after yielding that is slower than the speed limit",
  "a released vehicle resumes at its present speed instead of its lane's speed limit",
  '''
from highway_env.road.regulation import RegulatedRoad
from highway_env.road.road import RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = RegulatedRoad(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a = IDMVehicle(road, [50, 0], 0, 8)
road.vehicles.append(a)
a.is_yielding, a.yield_timer, a.target_speed, a.color = True, 5, 0, None
a.speed = 0
road.enforce_road_rules()
check(a.target_speed == a.lane.speed_limit, a.target_speed)
''')

S("c23-summon-any-crash", "C23,C25", [(SU, "            self.COLLISION_REWARD * self.vehicle.crashed\n", "            self.COLLISION_REWARD * any(v.crashed for v in self.road.vehicles)\n")],
  "other vehicles of the summon lot crashing into each other",
  "crashes between other vehicles are charged to the agent",
  '''
from highway_env.envs.summon_env import SummonEnv
from highway_env.vehicle.kinematics import Vehicle
env = SummonEnv({"vehicles_count": 0})
env.seed(0)
env.reset()
v = Vehicle(env.road, [-20, -14], 0, 0)
v.crashed = True
env.road.vehicles.append(v)
check(env._reward(np.zeros(2)) > -2, env._reward(np.zeros(2)))
''')

S("c23-target-lane-count", "C23", [(HW, "            + self.RIGHT_LANE_REWARD * lane / max(len(neighbours) - 1, 1) \\\n", "            + self.RIGHT_LANE_REWARD * lane / max(self.config[\"lanes_count\"], 1) \\\n")],
  "any position that is not in the leftmost lane",
  "the right lane reward is normalised by the number of lanes instead of the index of the last one",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "initial_lane_id": 3})
env.seed(0)
env.reset()
env.vehicle.speed = 30
check(abs(env._reward(1) - 1) < 1e-9, env._reward(1))
''')

S("c23-intersection-mean-normalised", "C23", [(IN, "        reward = self.ARRIVED_REWARD if self.has_arrived(vehicle) else reward\n        if self.config[\"normalize_reward\"]:", "        reward = self.ARRIVED_REWARD if self.has_arrived(vehicle) else reward\n        if self.config[\"normalize_reward\"] and not self.has_arrived(vehicle):")],
  "a normalised intersection reward with a high arrival reward (a subclass)",
  "the arrival reward is not normalised",
  '''
from highway_env.envs.intersection_env import IntersectionEnv


class Env(IntersectionEnv):
    ARRIVED_REWARD = 2


env = Env({"normalize_reward": True})
env.seed(0)
env.reset()
v = env.vehicle
lane = env.road.network.get_lane(("il1", "o1", 0))
v.position, v.heading = lane.position(40, 0), lane.heading_at(40)
v.on_state_update()
check(abs(env._reward(1) - 1) < 1e-9, env._reward(1))
''')

S("c24-offroad-of-any", "C24", [(HW, "            (self.config[\"offroad_terminal\"] and not self.vehicle.on_road)", "            (self.config[\"offroad_terminal\"] and not all(v.on_road for v in self.road.vehicles))")],
  "offroad termination while another vehicle leaves the road (the end of the road, off to the side)",
  "another vehicle leaving the road ends the episode",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 1, "offroad_terminal": True})
env.seed(0)
env.reset()
env.road.vehicles[1].position[1] = 40.
env.road.vehicles[1].on_state_update()
check(not env._is_terminal(), "terminal")
''')

S("c24-info-of-applied", "C24", [(A, "            \"action\": action,\n        }", "            \"action\": getattr(self.action_type, \"last_action\", action),\n        }")],
  "continuous actions outside [-1, 1], or manual control",
  "the reported action is the clipped one, not the one passed",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
env.seed(0)
env.reset()
a = np.array([2., .5])
check(np.array_equal(env.step(a)[3]["action"], a), "reported another action")
''')

S("c25-moving-goal", "C25", [(O, "        goal = np.ravel(pd.DataFrame.from_records([self.env.goal.to_dict()])[self.features])", "        goal = np.ravel(pd.DataFrame.from_records([self.env.goal.to_dict(self.observer_vehicle if self.absolute else None)])[self.features])")],
  "a goal observation with absolute coordinates requested",
  "with the absolute option the desired goal is relative to the vehicle",
  '''
from highway_env.envs.parking_env import ParkingEnv
cfg = ParkingEnv.default_config()["observation"]
cfg["absolute"] = True
env = ParkingEnv({"observation": cfg})
env.seed(0)
g = [env.reset()["desired_goal"]]
for _ in range(5):
    g.append(env.step(np.array([1., .3]))[0]["desired_goal"])
check(all(np.array_equal(x, g[0]) for x in g), g)
''')

S("c25-success-of-first", "C25", [(PA, "            success = tuple(self._is_success(agent_obs['achieved_goal'], agent_obs['desired_goal']) for agent_obs in obs)", "            success = tuple(self._is_success(obs[0]['achieved_goal'], agent_obs['desired_goal']) for agent_obs in obs)")],
  "several parking agents of which only one has reached the goal",
  "the success of every agent is that of the first",
  '''
from highway_env.envs.parking_env import ParkingEnv
cfg = ParkingEnv.default_config()["observation"]
env = ParkingEnv({"controlled_vehicles": 2, "action": {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}}, "observation": {"type": "MultiAgentObservation", "observation_config": cfg}})
env.seed(0)
env.reset()
v = env.controlled_vehicles[1]
v.position, v.heading = env.goal.position.copy(), env.goal.heading
info = env.step((np.zeros(2), np.zeros(2)))[3]
check(info["is_success"] == (False, True), info)
''')

S("c26-closest-by-position", "C26,C14", [(K, "            self.lane_index = self.road.network.get_closest_lane_index(self.position, self.heading)\n            self.lane = self.road.network.get_lane(self.lane_index)\n            if self.road.record_history:", "            if not self.lane.on_lane(self.position) or self.lane.after_end(self.position):\n                self.lane_index = self.road.network.get_closest_lane_index(self.position, self.heading)\n            self.lane = self.road.network.get_lane(self.lane_index)\n            if self.road.record_history:")],
  "a vehicle that turns across overlapping lanes (junctions, roundabouts, two-way roads) without leaving its lane's surface",
  "the current lane is only updated when the vehicle leaves it",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
v = Vehicle(road, [50, 0], 0, 0)
v.position[1] = 2.
v.on_state_update()
v.position[1] = 2. - 1e-3
v.on_state_update()
v.position[1] = 2.
v.heading = 0
from highway_env.envs.two_way_env import TwoWayEnv
env = TwoWayEnv()
v = Vehicle(env.road, [50, 0], 0, 0)
v.heading = np.pi
v.on_state_update()
check(v.lane_index == ("b", "a", 0), v.lane_index)
''')

S("c26-density-of-lanes", "C26", [(HW, "            self.road.vehicles.append(vehicles_type.create_random(self.road, spacing=1 / self.config[\"vehicles_density\"]))", "            self.road.vehicles.append(vehicles_type.create_random(self.road, lane_id=self.config[\"initial_lane_id\"], spacing=1 / self.config[\"vehicles_density\"]))")],
  "a highway with a configured initial lane",
  "the initial lane of the ego vehicle is imposed on the whole traffic",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"initial_lane_id": 1})
env.seed(0)
env.reset()
check(len({v.lane_index[2] for v in env.road.vehicles[1:]}) > 1, "one lane")
''')

S("c26-destination-default", "C26", [(IN, "            destination = self.config[\"destination\"] or \"o\" + str(self.np_random.randint(1, 4))", "            destination = self.config[\"destination\"] or \"o\" + str((ego_id + 1 + self.np_random.randint(3)) % 3)")],
  "random destinations (destination set to None) in the intersection",
  "random destinations never include the east exit and may be the agent's own entry",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv({"destination": None, "initial_vehicle_count": 1})
seen = set()
for s in range(40):
    env.seed(s)
    env.reset()
    seen.add(env.vehicle.route[-1][1])
check(seen == {"o1", "o2", "o3"}, seen)
''')

S("c27-integrator-zero", "C27", [(I, "    else:\n        interval_gain = -np.array([k[0], k[0]])\n", "    else:\n        interval_gain = -np.flip(k, 0)\n")],
  "an integrator term of a state interval that contains zero",
  "the upper bound uses the lowest gain and the lower bound the highest",
  '''
from highway_env.interval import integrator_interval
x, k = np.array([-1., 2.]), np.array([1., 3.])
i = integrator_interval(x, k)
ok = all(i[0] - 1e-9 <= -kk * xx <= i[1] + 1e-9 for xx in np.linspace(-1, 2, 7) for kk in np.linspace(1, 3, 5)) if not np.allclose(i, [-6, 3]) else True
ref = np.array([-1. * -1, -1. * 2])
check(np.allclose(i, ref) or ok, i)
''')

S("c27-mixed-product", "C27,C28", [(I, "np.dot(p(a[1]), p(b[1])) - np.dot(p(a[0]), n(b[1])) - np.dot(n(a[1]), p(b[0])) + np.dot(n(a[0]), n(b[0]))])", "np.dot(p(a[1]), p(b[1])) - np.dot(p(a[0]), n(b[1])) - np.dot(n(a[1]), p(b[0])) + np.dot(n(a[0]), n(b[1]))])")],
  "a product of intervals of which both factors may be negative and the second may be zero or positive",
  "the upper bound of products of possibly negative factors is too low",
  '''
from highway_env.interval import intervals_product
i = intervals_product(np.array([-2., -1.]), np.array([-3., 1.]))
check(i[1] >= 6, i)
''')

S("c27-polytope-duplicate", "C27", [(I, "    d_a = list({d_a_i.tostring(): d_a_i for d_a_i in d_a}.values())", "    d_a = list({float(np.sum(d_a_i)): d_a_i for d_a_i in d_a}.values())")],
  "a parameter box of which two vertices give deviations with the same sum",
  "vertices with different deviations of equal sum are dropped",
  '''
from highway_env.interval import polytope
f = lambda t: np.array([[t[0], 0], [0, t[1]]])
a0, da = polytope(f, np.array([[-1., -1.], [1., 1.]]))
check(len(da) == 4, da)
''')

S("c28-control-sign", "C28", [(I, "        dx_M = a0 @ x_M + da_p @ p(x_M) + da_n @ n(x_m) + p(d) @ o_M - n(d) @ o_m + b @ u\n", "        dx_M = a0 @ x_M + da_p @ p(x_M) + da_n @ n(x_m) + p(d) @ o_M - n(d) @ o_m + p(b) @ u - n(b) @ np.abs(u)\n")],
  "a control matrix with negative entries and a negative control",
  "the upper bound is wrong for negative controls acting through negative entries",
  '''
from highway_env.interval import LPV
s = LPV([0., 0.], np.zeros((2, 2)), [np.zeros((2, 2))], b=np.array([[0.], [-1.]]), u=np.array([[-2.]]))
s.step(.1)
check(np.allclose(s.x_i_t[:, 1], .2), s.x_i_t)
''')

S("c29-noise-one-sided", "C29", [(P, "        phi_a_i = np.zeros((2, 3))\n        phi_a_i[:, 0] = [0, 0]\n        if front_interval:\n", "        phi_a_i = np.zeros((2, 3))\n        phi_a_i[:, 0] = [0, 0]\n        if front_interval and front_interval.speed[0] > v_i[0]:\n            front_interval = None\n        if front_interval:\n")],
  "a leader that is close and faster than the slowest possible speed of the follower",
  "a faster leader is ignored even when it is closer than the safe gap, so real trajectories leave the interval",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
v, lead = IntervalVehicle(road, [0, 0], 0, 20, target_speed=20), LinearVehicle(road, [30, 0], 0, 21, target_speed=21)
road.vehicles += [v, lead]
for _ in range(10):
    v.act()
    lead.act()
    v.observer_step(.1)
    LinearVehicle.step(v, .1)
    lead.step(.1)
check(v.interval.speed[0] - 1e-6 <= v.speed <= v.interval.speed[1] + 1e-6, (v.interval.speed, v.speed))
''')

S("c29-stored-alias", "C29", [(P, "        self.interval_trajectory.append(copy.deepcopy(self.interval))", "        self.interval_trajectory.append(copy.copy(self.interval))")],
  "reading the stored interval trajectory after full-observer steps (which update the bounds in place)",
  "the stored intervals of the past change with the present one",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
v = IntervalVehicle(road, [50, 0], 0, 20, target_speed=20)
road.vehicles.append(v)
v.store_trajectories()
v.act()
v.observer_step(.1)
check(np.allclose(v.interval_trajectory[0].position, [[50, 0], [50, 0]]), v.interval_trajectory[0].position)
''')

S("c30-single-route-data", "C30", [(E, "                self.data.append((route.copy(), {}))  # Add it", "                self.data.append((route.copy(), copy.copy(self.data[-1][1]) if self.data else {}))  # Add it")],
  "a driver that discovers a new route hypothesis after having collected data on others",
  "hypotheses share their data",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv({"other_vehicles_type": "highway_env.vehicle.uncertainty.estimation.MultipleModelVehicle"})
from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
v = MultipleModelVehicle.make_on_lane(env.road, ("o0", "ir0", 0), 90, 8)
v.plan_route_to("o2")
r = list(v.route)
v.route = r[:1] + [("ir0", "il1", None)]
v.data = [([("o0", "ir0", 0), ("ir0", "il1", 0)], {})]
v.collect_data()
v.route = list(r)
v.update_possible_routes()
v.collect_data()
ids = [id(d["lateral"]["features"]) for _, d in v.data if d]
check(len(ids) == len(set(ids)) and len(ids) > 1, v.data)
''')

S("c30-regularised-gram", "C30", [(U, "    beta_n = np.sqrt(2*np.log(np.sqrt(np.linalg.det(g_n_lambda) / lambda_ ** d) / delta)) + \\\n", "    beta_n = np.sqrt(2*np.log(np.sqrt(np.linalg.det(g_n_lambda) / lambda_) / delta)) + \\\n")],
  "estimating more than one parameter",
  "the confidence radius is too small for several parameters",
  '''
from highway_env.utils import confidence_ellipsoid
rng = np.random.RandomState(0)
phi = rng.randn(30, 3)
_, g, beta = confidence_ellipsoid({"features": list(phi), "outputs": list(phi @ [.1, .2, .3])})
ref = np.sqrt(2 * np.log(np.sqrt(np.linalg.det(g) / 1e-5 ** 3) / .1)) + np.sqrt(1e-5 * 3)
check(abs(beta - ref) < 1e-9, (beta, ref))
''')

S("c31-pan-class", "C31", [(RG, "        self.centering_position = list(self.INITIAL_CENTERING)\n" if False else "                self.centering_position[0] -= self.MOVING_FACTOR\n", "                self.INITIAL_CENTERING[0] -= self.MOVING_FACTOR\n                self.centering_position[0] -= self.MOVING_FACTOR\n")],
  "panning one viewer, then creating another one without a configured centre",
  "panning changes the initial centre of later viewers",
  '''
import pygame
from highway_env.road.graphics import WorldSurface
a = WorldSurface((100, 100), 0, pygame.Surface((100, 100)))
a.handle_event(pygame.event.Event(pygame.KEYDOWN, key=pygame.K_m))
b = WorldSurface((100, 100), 0, pygame.Surface((100, 100)))
check(b.centering_position[0] == .5, b.centering_position)
''')

S("c31-steering-first", "C31", [(G, "            if event.key == pygame.K_LEFT and action_type.lateral:\n                action[steering_index] = -0.7\n", "            if event.key == pygame.K_LEFT and action_type.lateral and action[steering_index] <= 0:\n                action[steering_index] = -0.7\n")],
  "pressing left while right is still held",
  "left has no effect while right is held",
  '''
import pygame
from highway_env.envs.common.graphics import EventHandler
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
env.seed(0)
env.reset()
ev = lambda t, k: EventHandler.handle_event(env.action_type, pygame.event.Event(t, key=k))
ev(pygame.KEYDOWN, pygame.K_RIGHT)
ev(pygame.KEYDOWN, pygame.K_LEFT)
check(env.action_type.last_action[1] == -.7, env.action_type.last_action)
''')

S("c31-manual-first-step", "C31", [(A, "                    and not self.config[\"manual_control\"] \\\n", "                    and not (self.config[\"manual_control\"] and self.viewer) \\\n")],
  "manual control without a viewer yet (before the first rendering, or offscreen evaluation)",
  "in manual control the given actions are applied as long as there is no viewer",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"manual_control": True, "vehicles_count": 0, "initial_lane_id": 1})
env.seed(0)
env.reset()
env.step(2)
check(env.vehicle.target_lane_index[2] == 1, env.vehicle.target_lane_index)
''')

S("c32-sampling-per-action", "C32", [(C, "        for action in actions:\n            v.act(action)  # High-level decision\n", "        for action in actions:\n            t = 0\n            v.act(action)  # High-level decision\n")],
  "a sampling period that does not divide the duration of an action",
  "the sampling of predicted states restarts with every action",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0})
env.seed(0)
env.reset()
s = env.vehicle.predict_trajectory(["IDLE"] * 3, 1, .6, .1)
check(len(s) == 5, len(s))
''')

S("c32-route-of-targets", "C32,C22", [(C, "        coordinates = self.lane.local_coordinates(self.position)\n", "        coordinates = self.road.network.get_lane((self.route or [self.lane_index])[0] if (self.route or [self.lane_index])[0][2] is not None else self.lane_index).local_coordinates(self.position)\n")],
  "a prediction while the planned route no longer starts with the current lane",
  "the prediction measures the position on the first lane of the route instead of the current lane",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [50, 0]))
net.add_lane("b", "c", StraightLane([50, 0], [50, 50]))
road = Road(net, np_random=np.random.RandomState(0))
v = ControlledVehicle(road, [48, 0], 0, 10, route=[("b", "c", 0)])
p, h = v.predict_trajectory_constant_speed([1.])
check(np.allclose(p[0], [50, 8]), p)
''')


# ---------------------------------------------------------------------------------------------------------------- third batch

S("c26-cached-defaults", "C26", [(A, "        self.config = self.default_config()\n", "        cls = self.__class__\n        if \"_defaults\" not in cls.__dict__:\n            cls._defaults = cls.default_config()\n        self.config = dict(cls._defaults)\n")],
  "a nested configuration entry modified in place by an earlier environment of the same class",
  "the default configuration is cached per class and its nested dictionaries are shared between environments",
  '''
from highway_env.envs.highway_env import HighwayEnv
a = HighwayEnv({"vehicles_count": 3})
a.config["observation"]["vehicles_count"] = 2
b = HighwayEnv({"vehicles_count": 3})
b.seed(0)
check(b.reset().shape[0] == 5, b.reset().shape)
''')

S("c02-copy-forgets-steps", "C02", [(A, "            if k not in ['viewer', 'automatic_rendering_callback']:\n                setattr(result, k, copy.deepcopy(v, memo))\n", "            if k == 'steps':\n                result.steps = 0\n            elif k not in ['viewer', 'automatic_rendering_callback']:\n                setattr(result, k, copy.deepcopy(v, memo))\n")],
  "a copy taken in the middle of an episode and driven up to the time limit",
  "the copy starts counting actions from zero and outlives the original",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "duration": 4})
env.seed(0)
env.reset()
env.step(1)
env.step(1)
c = copy.deepcopy(env)
x = [env.step(1)[2] for _ in range(2)]
y = [c.step(1)[2] for _ in range(2)]
check(x == y, (x, y))
''')

S("c02-network-shared", "C02", [(A, "        memo[id(self)] = result\n", "        memo[id(self)] = result\n        if self.road is not None:\n            memo[id(self.road.network)] = self.road.network  # Static\n")],
  "a copy whose road network is modified",
  "the copy shares the road network with the original: closing a lane in one closes it in the other",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0})
env.seed(0)
env.reset()
c = copy.deepcopy(env)
for lane in c.road.network.graph["0"]["1"]:
    lane.forbidden = True
check(len(env.get_available_actions()) > len(c.get_available_actions()), env.get_available_actions())
''')



S("c03-convert-in-place", "C03", [(A, "        vehicles = env_copy.road.vehicles\n        for i, v in enumerate(vehicles):\n            if v is not env_copy.vehicle:\n                vehicles[i] = vehicle_class.create_from(v)\n        return env_copy\n",
   "        vehicles = env_copy.road.vehicles\n        for i, v in enumerate(vehicles):\n            if v is not env_copy.vehicle and not isinstance(v, vehicle_class):\n                vehicles[i] = vehicle_class.create_from(v)\n        return env_copy\n")],
  "changing to a model of which a vehicle is already a subclass (an aggressive driver to the linear model)",
  "vehicles of a subclass keep their own model instead of taking the asked one",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.vehicle.behavior import IDMVehicle
env = HighwayEnv({"vehicles_count": 3, "other_vehicles_type": "highway_env.vehicle.behavior.AggressiveVehicle"})
env.seed(0)
env.reset()
c = env.change_vehicles("highway_env.vehicle.behavior.IDMVehicle")
check(all(type(v) is IDMVehicle for v in c.road.vehicles[1:]), [type(v) for v in c.road.vehicles])
''')



S("c05-near-destination", "C05", [(K, "        if (self.destination != self.position).any():\n", "        if np.linalg.norm(self.destination - self.position) > 1:\n")],
  "a vehicle within a metre of its destination",
  "the observed direction of the destination vanishes before the destination is reached",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
road = Road(RoadNetwork.straight_road_network(1, 100))
v = ControlledVehicle(road, [99.5, 0], 0, 10, route=[("0", "1", 0)])
check(v.to_dict()["cos_d"] == 1, v.to_dict())
''')

S("c05-intentions-of-self", "C05", [(O, "        df = pd.DataFrame.from_records([self.observer_vehicle.to_dict()])[self.features]\n        # Add nearby traffic\n        # sort", "        df = pd.DataFrame.from_records([self.observer_vehicle.to_dict(observe_intentions=self.observe_intentions)])[self.features]\n        # Add nearby traffic\n        # sort")],
  "destination features in an observation that hides the intentions of the others",
  "the observer does not see its own destination any more",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv({"observation": {"type": "Kinematics", "features": ["presence", "cos_d", "sin_d"]}})
env.seed(0)
obs = env.reset()
check(abs(obs[0][1:]).max() > .1, obs[0])
''')

S("c05-closest-after-cut", "C05", [(R, "        vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))\n        if count is not None:\n            vehicles = vehicles[:count]\n        return vehicles\n",
   "        if count is not None:\n            vehicles = vehicles[:max(count, 8)]\n        vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))\n        if count is not None:\n            vehicles = vehicles[:count]\n        return vehicles\n")],
  "more than eight vehicles in sight, listed in another order than their distance",
  "the closest vehicles are only searched among the first eight in sight",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
ego = Vehicle(road, [0, 0])
road.vehicles = [ego] + [Vehicle(road, [x, 0]) for x in (90, 80, 70, 60, 50, 40, 35, 30, 20, 10)]
c = road.close_vehicles_to(ego, 180, 2)
check([v.position[0] for v in c] == [10, 20], [v.position[0] for v in c])
''')

S("c06-clipped-position", "C06", [(O, "                df[feature] = utils.lmap(df[feature], [f_range[0], f_range[1]], [-1, 1])\n        return df\n\n    def observe(self) -> np.ndarray:\n        if not self.env.road:\n            return np.zeros(self.space().shape)\n\n        if self.absolute:",
   "                df[feature] = np.clip(utils.lmap(df[feature], [f_range[0], f_range[1]], [-1, 1]), -1, 1)\n        return df\n\n    def observe(self) -> np.ndarray:\n        if not self.env.road:\n            return np.zeros(self.space().shape)\n\n        if self.absolute:")],
  "ranges given for x or y that are smaller than the grid, and a vehicle beyond them",
  "vehicles out of the range of positions appear on the border of the range",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.vehicle.kinematics import Vehicle
env = HighwayEnv({"vehicles_count": 0, "observation": {"type": "OccupancyGrid", "features": ["presence"], "grid_size": [[-30, 30], [-30, 30]], "grid_step": [5, 5],
                  "features_range": {"x": [-12, 12], "y": [-30, 30]}}})
env.seed(0)
env.reset()
env.road.vehicles.append(Vehicle(env.road, env.vehicle.position + [400, 0]))
check(env.observation_type.observe().sum() == 1, env.observation_type.observe().sum())
''')


S("c07-own-length", "C07", [(MDP, "            margin = other.LENGTH / 2 + vehicle.LENGTH / 2\n", "            margin = vehicle.LENGTH\n")],
  "other vehicles of another length",
  "the margin around a collision ignores the length of the other vehicle",
  '''
from highway_env.envs.two_way_env import TwoWayEnv
from highway_env.envs.common.finite_mdp import compute_ttc_grid
env = TwoWayEnv()
env.seed(0)
env.reset()
o = env.road.vehicles[1]
env.road.vehicles = [env.vehicle, o]
o.position = env.vehicle.position + [50., 0]
o.speed = 10.
g = compute_ttc_grid(env, .1, 10)
o.LENGTH = 15.
check(not np.array_equal(g, compute_ttc_grid(env, .1, 10)), "same grid")
''')

S("c07-same-lane-count", "C07", [(MDP, "                    if len(env.road.network.all_side_lanes(other.lane_index)) == len(env.road.network.all_side_lanes(vehicle.lane_index)):\n", "                    if len(env.road.network.all_side_lanes(other.lane_index)) >= len(env.road.network.all_side_lanes(vehicle.lane_index)):\n")],
  "a vehicle on a connected road with more lanes than the observer's",
  "vehicles of a wider road ahead only occupy the lane of the same number",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import MDPVehicle
from highway_env.envs.two_way_env import TwoWayEnv
from highway_env.envs.common.finite_mdp import compute_ttc_grid
env = TwoWayEnv()
net = RoadNetwork()
for i in range(2):
    net.add_lane("a", "b", StraightLane([0, 4 * i], [100, 4 * i]))
for i in range(3):
    net.add_lane("b", "c", StraightLane([100, 4 * i], [200, 4 * i]))
env.road = Road(net, np_random=np.random.RandomState(0))
ego, o = MDPVehicle(env.road, [80, 4], 0, 25), MDPVehicle(env.road, [130, 4], 0, 15)
env.road.vehicles = [ego, o]
g = compute_ttc_grid(env, 1., 10, vehicle=ego)
check(g[:, 0].any() and g[:, 1].any(), g)
''')

S("c07-depth", "C07", [(MDP, "                                                      route=vehicle.route, depth=3):\n", "                                                      route=vehicle.route, depth=1):\n")],
  "a vehicle two roads ahead, within the horizon (short roads at an intersection)",
  "vehicles more than one road ahead are not predicted",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import MDPVehicle
from highway_env.envs.two_way_env import TwoWayEnv
from highway_env.envs.common.finite_mdp import compute_ttc_grid
env = TwoWayEnv()
net = RoadNetwork()
for k in range(4):
    net.add_lane(str(k), str(k + 1), StraightLane([30 * k, 0], [30 * k + 30, 0]))
env.road = Road(net, np_random=np.random.RandomState(0))
ego, o = MDPVehicle(env.road, [10, 0], 0, 25), MDPVehicle(env.road, [75, 0], 0, 10)
env.road.vehicles = [ego, o]
check(compute_ttc_grid(env, 1., 10, vehicle=ego).any(), "empty")
''')


S("c08-unit-weights", "C08", [(O, "        return np.dot(raw_rgb[..., :3], self.config['weights'])\n", "        return np.dot(raw_rgb[..., :3], np.array(self.config['weights']) / max(np.sum(self.config['weights']), 1))\n")],
  "weights whose sum is above one",
  "weights are silently rescaled",
  '''
from highway_env.envs.highway_env import HighwayEnv
o = {"type": "GrayscaleObservation", "weights": [1., 0., 1.], "stack_size": 2, "observation_shape": (60, 40)}
env = HighwayEnv({"offscreen_rendering": True, "vehicles_count": 2, "screen_width": 60, "screen_height": 40, "observation": o})
env.seed(0)
obs = env.reset()
img = env.render("rgb_array")
check(np.allclose(obs[:, :, -1], img.dot([1., 0., 1.]).T), "rescaled")
''')

S("c08-missed-frame", "C08", [(O, "        raw_rgb = self.env.render('rgb_array')\n", "        raw_rgb = self.env.render('rgb_array') if self.env.viewer is None else self.env.viewer.get_image()\n")],
  "an observation after a step, with a viewer already open",
  "the observation shows the frame of the previous display instead of the present scene",
  '''
from highway_env.envs.highway_env import HighwayEnv
o = {"type": "GrayscaleObservation", "weights": [.3, .3, .3], "stack_size": 2, "observation_shape": (120, 80)}
env = HighwayEnv({"offscreen_rendering": True, "vehicles_count": 5, "screen_width": 120, "screen_height": 80, "observation": o})
env.seed(0)
env.reset()
env.road.vehicles[1].position = env.vehicle.position + [9., 0]
obs = env.observation_type.observe()
img = env.render("rgb_array")
check(np.allclose(obs[:, :, -1], img.dot([.3, .3, .3]).T), "stale")
''')

S("c09-road-type-side", "C09", [(RG, "            elif lane.line_types[side] == LineType.CONTINUOUS:\n", "            elif lane.line_types[0] == LineType.CONTINUOUS or lane.line_types[side] == LineType.CONTINUOUS:\n")],
  "a lane with a continuous line on its left and none, or another kind, on its right",
  "lanes with a continuous line on the left get one on the right too",
  '''
import pygame
from highway_env.road.lane import StraightLane, LineType
from highway_env.road.graphics import LaneGraphics, WorldSurface
calls = []
LaneGraphics.draw_stripes = classmethod(lambda cls, lane, surface, starts, ends, lats: calls.append(lats[0]))
s = WorldSurface((200, 100), 0, pygame.Surface((200, 100)))
LaneGraphics.display(StraightLane([0, 0], [100, 0], line_types=(LineType.CONTINUOUS, LineType.NONE)), s)
check(calls == [-2.], calls)
''')

S("c09-heading-threshold", "C09", [(VG, "        h = v.heading if abs(v.heading) > 2 * np.pi / 180 else 0\n", "        h = v.heading if abs(v.heading) > 12 * np.pi / 180 else 0\n")],
  "a vehicle turned by a few degrees (a lane change)",
  "vehicles changing lane are drawn parallel to the axis",
  '''
import pygame
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.graphics import VehicleGraphics
from highway_env.road.graphics import WorldSurface
road = Road(RoadNetwork.straight_road_network(2))
imgs = []
for h in (0., .18):
    s = WorldSurface((200, 200), 0, pygame.Surface((200, 200)))
    s.scaling = 20
    s.move_display_window_to(np.array([0, 0]))
    VehicleGraphics.display(Vehicle(road, [0, 0], h, 0), s, offscreen=True)
    imgs.append(pygame.surfarray.array3d(s).copy())
check((imgs[0] != imgs[1]).any(), "same picture")
''')

S("c10-check-while-moving", "C10,C24", [(R, "        for vehicle in self.vehicles:\n            vehicle.step(dt)\n        for vehicle in self.vehicles:\n            for other in self.vehicles:\n", "        for vehicle in self.vehicles:\n            vehicle.step(dt)\n            for other in self.vehicles:\n")],
  "a vehicle closely following a faster moving one listed after it",
  "collisions are tested while part of the vehicles have not moved yet",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
a, b = Vehicle(road, [0, 0], 0, 30), Vehicle(road, [5., 0], 0, 30)
road.vehicles = [a, b]
road.step(1 / 15)
check(not a.crashed and not b.crashed, "phantom collision")
''')

S("c10-radius-of-lengths", "C10", [(K, "            return False\n        # Accurate rectangular check\n", "            return False\n        if abs(self.front_distance_to(other)) > (self.LENGTH + other.LENGTH) / 2:\n            return False\n        # Accurate rectangular check\n")],
  "a long vehicle crossing in front, seen along the direction of the first",
  "overlaps of a vehicle with a long one turned the other way are missed",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
a, b = Vehicle(road, [0, 0], np.pi / 2, 0), Vehicle(road, [0, 0], 0, 0)
a.LENGTH, a.WIDTH = 2., 20.
b.position = np.array([8., 0])
a.heading, b.heading = 0., 0.
a.LENGTH, a.WIDTH, b.LENGTH, b.WIDTH = 4., 2., 2., 14.
b.heading = np.pi / 2
b.position = np.array([7., .5])
a.check_collision(b)
check(a.crashed, "missed")
''')

S("c11-crash-coasts", "C11,C10", [(K, "            self.action['acceleration'] = -1.0*self.speed\n", "            self.action['acceleration'] = -1.0*self.speed if self.speed > .5 else 0\n")],
  "a crashed vehicle that is slow or was driving in reverse",
  "crashed vehicles keep creeping, or reversing, for ever",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
v = Vehicle(road, [0, 0], 0, -4)
v.crashed = True
for _ in range(300):
    v.step(.05)
check(abs(v.speed) < 1e-3, v.speed)
''')

S("c11-midpoint", "C11", [(K, "        self.heading += self.speed * np.sin(beta) / (self.LENGTH / 2) * dt\n        self.speed += self.action['acceleration'] * dt\n", "        self.speed += self.action['acceleration'] * dt\n        self.heading += self.speed * np.sin(beta) / (self.LENGTH / 2) * dt\n")],
  "accelerating in a turn",
  "the heading is integrated with the speed of the end of the step",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
v = Vehicle(road, [0, 0], 0, 10)
v.act({"steering": .3, "acceleration": 5.})
v.step(.1)
check(abs(v.heading - 10 * np.sin(np.arctan(np.tan(.3) / 2)) / 2.5 * .1) < 1e-9, v.heading)
''')


S("c12-frozen-linear-model", "C12", [(D, "        self.A_lat, self.B_lat = self.lateral_lpv_dynamics()\n        dx = ", "        if self.A_lat is None:\n            self.A_lat, self.B_lat = self.lateral_lpv_dynamics()\n        dx = ")],
  "a change of speed between the construction of the vehicle and the use of its linear model",
  "the linearised derivative keeps the matrices of the initial speed",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.dynamics import BicycleVehicle
road = Road(RoadNetwork.straight_road_network(1))
v, w = BicycleVehicle(road, [0, 0], 0, 10), BicycleVehicle(road, [0, 0], 0, 5)
w.speed = 10
for x in (v, w):
    x.lateral_speed, x.yaw_rate = .01, .02
check(np.allclose(v.derivative_linear, w.derivative_linear), (v.derivative_linear, w.derivative_linear))
''')

S("c13-unwrapped-heading", "C13,C14", [(L, "        angle = np.abs(wrap_to_pi(heading - self.heading_at(s)))\n", "        angle = np.abs(heading - self.heading_at(s)) % (2 * np.pi)\n")],
  "a heading just below that of the lane plus a full turn, or on the other side of the discontinuity",
  "the difference of headings is not taken the short way round",
  '''
from highway_env.road.lane import StraightLane
l = StraightLane([0, 0], [100, 0])
check(abs(l.distance_with_heading(np.array([10., 0]), 2 * np.pi - .1) - .1) < 1e-9, l.distance_with_heading(np.array([10., 0]), 2 * np.pi - .1))
''')

S("c13-circle-end", "C13", [(L, "        phi = self.start_phase + utils.wrap_to_pi(phi - self.start_phase)\n", "        phi = self.start_phase + utils.wrap_to_pi(phi - self.start_phase - .5 * self.direction * self.length / self.radius) + .5 * self.direction * self.length / self.radius if self.length > np.pi * self.radius else \\\n            phi\n")],
  "an arc shorter than half a turn that crosses the discontinuity of the angle",
  "positions after the discontinuity are a turn away from their longitudinal coordinate",
  '''
from highway_env.road.lane import CircularLane
l = CircularLane([0, 0], 20, np.pi - .5, np.pi + .5)
s, d = l.local_coordinates(l.position(15., 1.))
check(abs(s - 15) < 1e-9 and abs(d - 1) < 1e-9, (s, d))
''')

S("c14-skip-costs-depth", "C14", [(R, "                return self.is_connected_road(lane_index_1, lane_index_2, route[1:], same_lane, depth)\n", "                return self.is_connected_road(lane_index_1, lane_index_2, route[1:], same_lane, depth - 1)\n")],
  "a route that starts with the current road, and a road at the limit of the depth",
  "the current road at the head of the route uses up one level of the search",
  '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
net = RoadNetwork()
for k in range(4):
    net.add_lane(str(k), str(k + 1), StraightLane([30 * k, 0], [30 * k + 30, 0]))
route = [(str(k), str(k + 1), 0) for k in range(4)]
r = [net.is_connected_road(("0", "1", 0), ("2", "3", 0), route=x, depth=2) for x in (route, route[1:])]
check(r[0] == r[1], r)
''')

S("c14-random-when-dropped", "C14", [(R, "            if route and route[0][0] == _to:  # Next road in route is starting at the end of current road.\n", "            elif route and route[0][0] == _to:  # Next road in route is starting at the end of current road.\n")],
  "a fork at the end of the first road of the route",
  "after dropping the first step of its route, a vehicle picks its next road at random",
  '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [50, 0]))
net.add_lane("b", "c", StraightLane([50, 0], [100, 0]))
net.add_lane("b", "d", StraightLane([50, 0], [50, 50]))
got = {net.next_lane(("a", "b", 0), route=[("a", "b", 0), ("b", "d", 0)], position=np.array([50., 0]), np_random=np.random.RandomState(s)) for s in range(12)}
check(got == {("b", "d", 0)}, got)
''')

S("c15-alongside-is-rear", "C15", [(R, "                if s <= s_v and (s_front is None or s_v <= s_front):\n", "                if s < s_v and (s_front is None or s_v <= s_front):\n"), (R, "                if s_v < s and (s_rear is None or s_v > s_rear):\n", "                if s_v <= s and (s_rear is None or s_v > s_rear):\n")],
  "two vehicles at the very same longitudinal position",
  "a vehicle exactly alongside is reported as following instead of preceding",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2))
a, b = Vehicle(road, [50, 0]), Vehicle(road, [50, 4])
road.vehicles = [a, b]
f, r = road.neighbour_vehicles(a, ("0", "1", 1))
check(f is b and r is None, (f, r))
''')

S("c15-projected-own-lane", "C15", [(R, "        s = self.network.get_lane(lane_index).local_coordinates(vehicle.position)[0]\n", "        s = self.network.get_lane(lane_index if lane_index[:2] != vehicle.lane_index[:2] else vehicle.lane_index).local_coordinates(vehicle.position)[0]\n")],
  "side lanes of one road that do not start at the same place (an arc, or staggered lanes)",
  "the vehicle is placed on a side lane by its coordinate in its own lane",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.kinematics import Vehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0]))
net.add_lane("a", "b", StraightLane([40, 4], [140, 4]))
road = Road(net)
a, b = Vehicle(road, [60, 0]), Vehicle(road, [70, 4])
road.vehicles = [a, b]
f, r = road.neighbour_vehicles(a, ("a", "b", 1))
check(f is b, (f, r))
''')

S("c16-clip-of-class", "C16", [(C, "        heading_ref = lane_future_heading + np.clip(heading_command, -np.pi/4, np.pi/4)\n", "        heading_ref = lane_future_heading + (np.clip(heading_command, -np.pi/4, np.pi/4) if self.speed > 1 else 0)\n")],
  "a slow vehicle beside the centre of its lane",
  "below walking pace the lateral error is ignored",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
road = Road(RoadNetwork.straight_road_network(1))
v = ControlledVehicle(road, [0, 1.5], 0, .8)
for _ in range(3000):
    v.act()
    v.step(1 / 15)
check(abs(v.position[1]) < .2, v.position)
''')

S("c16-gain-of-speed", "C16", [(C, "        return self.KP_A * (target_speed - self.speed)\n", "        return self.KP_A * (abs(target_speed) - abs(self.speed)) * (1 if target_speed >= 0 else -1)\n")],
  "a vehicle rolling backwards that is asked to drive forwards (or the reverse)",
  "the speed control compares magnitudes, so that a reversing vehicle never comes back to a positive target",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
road = Road(RoadNetwork.straight_road_network(1))
v = ControlledVehicle(road, [50, 0], 0, -5, target_speed=5)
for _ in range(100):
    v.act()
    v.step(1 / 15)
check(abs(v.speed - 5) < .1, v.speed)
''')

S("c17-class-count", "C17", [(A, "        if self.vehicle.speed_index < self.vehicle.SPEED_COUNT - 1 and self.action_type.longitudinal:\n", "        if self.vehicle.speed_index < MDPVehicle.SPEED_COUNT - 1 and self.action_type.longitudinal:\n")],
  "an ego vehicle with another number of speeds than the class's default",
  "going faster is offered, or not, for the default number of speeds",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0})
env.seed(0)
env.reset()
env.vehicle.SPEED_COUNT = 5
env.vehicle.speed_index = 2
check(3 in env.get_available_actions(), env.get_available_actions())
''')

S("c17-index-rounding", "C17", [(C, "        x = (speed - self.SPEED_MIN) / (self.SPEED_MAX - self.SPEED_MIN)\n        return np.int(np.clip(np.round(x * (self.SPEED_COUNT - 1)), 0, self.SPEED_COUNT - 1))\n\n    @classmethod\n    def speed_to_index_default", "        x = (speed - self.SPEED_MIN) / (self.SPEED_MAX - self.SPEED_MIN)\n        return np.int(np.clip(x * (self.SPEED_COUNT - 1) + .49, 0, self.SPEED_COUNT - 1))\n\n    @classmethod\n    def speed_to_index_default")],
  "a speed just above the middle between two choices",
  "the closest speed is not found near the middle between two choices",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
v = MDPVehicle(Road(RoadNetwork.straight_road_network(1)), [0, 0], 0, 25)
check(v.speed_to_index(22.53) == 1, v.speed_to_index(22.53))
''')

S("c18-dynamical-steering-only", "C18,C12", [(ACT, "        return Vehicle if not self.dynamical else BicycleVehicle\n", "        return Vehicle if not (self.dynamical and self.lateral) else BicycleVehicle\n")],
  "a dynamical action type with the throttle only",
  "throttle-only dynamical actions get a kinematic vehicle",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.vehicle.dynamics import BicycleVehicle
env = HighwayEnv({"vehicles_count": 0, "action": {"type": "ContinuousAction", "lateral": False, "dynamical": True}})
check(type(env.vehicle) is BicycleVehicle, type(env.vehicle))
''')

S("c18-held-steering", "C18", [(ACT, "                \"acceleration\": utils.lmap(action[0], [-1, 1], self.acceleration_range),\n                \"steering\": 0,\n", "                \"acceleration\": utils.lmap(action[0], [-1, 1], self.acceleration_range),\n                \"steering\": self.controlled_vehicle.action[\"steering\"],\n")],
  "throttle-only actions after something left a steering angle on the vehicle",
  "with throttle-only actions the previous steering angle is held",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "action": {"type": "ContinuousAction", "lateral": False}})
env.seed(0)
env.reset()
env.vehicle.action["steering"] = .2
env.step(np.array([.5]))
check(env.vehicle.action["steering"] == 0, env.vehicle.action)
''')

S("c19-approach-rate", "C19", [(B, "        d_star = d0 + ego_vehicle.speed * tau + ego_vehicle.speed * dv / (2 * np.sqrt(ab))\n        return d_star\n\n    def maximum", "        d_star = d0 + ego_vehicle.speed * tau + ego_vehicle.speed * max(dv, 0) / (2 * np.sqrt(ab))\n        return d_star\n\n    def maximum")],
  "a leader that drives away faster",
  "the desired gap does not shrink behind a faster leader",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(1))
a, b = IDMVehicle(road, [0, 0], 0, 20), IDMVehicle(road, [40, 0], 0, 26)
ab = np.sqrt(a.COMFORT_ACC_MAX * -a.COMFORT_ACC_MIN)
check(abs(a.desired_gap(a, b) - (a.DISTANCE_WANTED + 20 * a.TIME_WANTED + 20 * -6 / (2 * ab))) < 1e-9, a.desired_gap(a, b))
''')

S("c19-power-of-reverse", "C19", [(B, "                1 - np.power(max(ego_vehicle.speed, 0) / ego_target_speed, self.DELTA))\n", "                1 - np.power(np.abs(ego_vehicle.speed) / ego_target_speed, self.DELTA))\n")],
  "a vehicle rolling backwards",
  "a vehicle in reverse brakes as if it drove forwards at that speed",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(1))
a = IDMVehicle(road, [0, 0], 0, -20, target_speed=10)
check(a.acceleration(a) > 0, a.acceleration(a))
''')

S("c20-after-decision", "C20", [(B, "        self.timer = 0\n\n        # decide to make a lane change\n", "\n        # decide to make a lane change\n"), (B, "            if self.mobil(lane_index):\n                self.target_lane_index = lane_index\n", "            if self.mobil(lane_index):\n                self.target_lane_index = lane_index\n                self.timer = 0\n")],
  "a vehicle that does not change lane at its decision time",
  "without a decision to change lane the timer is not restarted, and the vehicle reconsiders at every step",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2))
v = IDMVehicle(road, [0, 0], 0, 20, target_speed=20, timer=.99)
road.vehicles = [v]
n = []
mobil = v.mobil
v.mobil = lambda i: n.append(1) or mobil(i)
for _ in range(14):
    v.act()
    v.step(1 / 15)
check(len(n) == 1, len(n))
''')

S("c20-last-recommended", "C20", [(B, "            if not self.road.network.get_lane(lane_index).is_reachable_from(self.position):\n                continue\n            # Does the MOBIL", "            if not self.road.network.get_lane(self.lane_index).is_reachable_from(self.position):\n                continue\n            # Does the MOBIL")],
  "a lane change advantage towards a forbidden or out-of-reach lane",
  "the reachability of the present lane is checked instead of the candidate's",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
road.network.graph["0"]["1"][1].forbidden = True
v, slow = IDMVehicle(road, [0, 0], 0, 20, target_speed=30, timer=2), IDMVehicle(road, [25, 0], 0, 5)
road.vehicles = [v, slow]
v.act()
check(v.target_lane_index[2] == 0, v.target_lane_index)
''')

S("c21-random-of-class", "C21,C01", [(B, "        ua = self.road.np_random.uniform(size=np.shape(self.ACCELERATION_PARAMETERS))\n        self.ACCELERATION_PARAMETERS = self.ACCELERATION_RANGE[0] + ua*(self.ACCELERATION_RANGE[1] -\n                                                                        self.ACCELERATION_RANGE[0])\n",
   "        ua = self.road.np_random.uniform()\n        self.ACCELERATION_PARAMETERS = self.ACCELERATION_RANGE[0] + ua*(self.ACCELERATION_RANGE[1] -\n                                                                        self.ACCELERATION_RANGE[0])\n")],
  "several parameters of one randomised vehicle compared with each other",
  "all acceleration parameters of a vehicle are drawn at the same place of their ranges",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
v = LinearVehicle(road, [0, 0])
v.randomize_behavior()
u = (np.array(v.ACCELERATION_PARAMETERS) - v.ACCELERATION_RANGE[0]) / (v.ACCELERATION_RANGE[1] - v.ACCELERATION_RANGE[0])
check(np.ptp(u) > 1e-6, u)
''')

S("c21-safe-distance-reverse", "C21", [(B, "            d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED\n", "            d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, front_vehicle.speed if front_vehicle else 0) * self.TIME_WANTED\n")],
  "a leader faster than the follower",
  "the safety distance is computed with the speed of a faster leader",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
road = Road(RoadNetwork.straight_road_network(1))
a, b = LinearVehicle(road, [0, 0], 0, 10), LinearVehicle(road, [40, 0], 0, 20)
check(a.acceleration_features(a, b)[2] == 0, a.acceleration_features(a, b))
''')

S("c22-resume-previous", "C22", [(REG, "                    v.target_speed = v.lane.speed_limit\n", "                    v.target_speed = max(getattr(v, \"resume_speed\", 0), v.speed)\n"), (REG, "                        yielding_vehicle.target_speed = 0\n", "                        if not getattr(yielding_vehicle, \"is_yielding\", False):\n                            yielding_vehicle.resume_speed = yielding_vehicle.target_speed\n                        yielding_vehicle.target_speed = 0\n")],
  "a vehicle whose speed before yielding was not the limit of its lane",
  "a vehicle that has yielded resumes its previous target speed instead of the speed limit",
  '''
from highway_env.road.regulation import RegulatedRoad
from highway_env.road.road import RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = RegulatedRoad(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
v = IDMVehicle(road, [0, 0], 0, 3, target_speed=4)
v.is_yielding, v.yield_timer, v.target_speed, v.color, v.resume_speed = True, 10, 0, None, 4
road.vehicles = [v]
road.enforce_road_rules()
check(v.target_speed == v.lane.speed_limit, v.target_speed)
''')

S("c22-pairs-of-neighbours", "C22", [(REG, "            for j in range(i+1, len(self.vehicles)):\n", "            for j in range(i+1, min(i+9, len(self.vehicles))):\n")],
  "two conflicting vehicles far apart in the list of a crowded road",
  "conflicts are only searched among vehicles close to each other in the list",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.vehicle.behavior import IDMVehicle
env = IntersectionEnv()
env.seed(0)
env.reset()
road = env.road
a = IDMVehicle.make_on_lane(road, ("o0", "ir0", 0), 90, 8).plan_route_to("o2")
b = IDMVehicle.make_on_lane(road, ("o1", "ir1", 0), 90, 8).plan_route_to("o3")
far = [IDMVehicle.make_on_lane(road, ("il3", "o3", 0), 5. + 9 * i, 0).plan_route_to("o3") for i in range(10)]
road.vehicles = [a] + far + [b]
road.enforce_road_rules()
check(getattr(a, "is_yielding", False) or getattr(b, "is_yielding", False), "no one yields")
''')

S("c24-two-way-cost-crash", "C24", [(TW, "        return float(self.vehicle.crashed) + float(self.vehicle.lane_index[2] == 0)/15\n", "        return float(self.vehicle.crashed) + float(self.vehicle.lane_index[2] == 0 and not self.vehicle.crashed)/15\n")],
  "a collision on the opposite lane",
  "the cost of the opposite lane is not counted in a collision",
  '''
from highway_env.envs.two_way_env import TwoWayEnv
env = TwoWayEnv()
env.seed(0)
env.reset()
env.vehicle.position = np.array([100., 0])
env.vehicle.on_state_update()
env.vehicle.crashed = True
check(abs(env._cost(1) - (1 + 1 / 15)) < 1e-9, env._cost(1))
''')

S("c23-merge-altruism-any", "C23", [(ME, "            if vehicle.lane_index == (\"b\", \"c\", 2) and isinstance(vehicle, ControlledVehicle):\n", "            if vehicle.lane_index == (\"b\", \"c\", 2) and isinstance(vehicle, ControlledVehicle) and vehicle is not self.vehicle:\n")],
  "the ego vehicle itself on the merging lane",
  "the ego vehicle is not penalised for being slow on the merging lane",
  '''
from highway_env.envs.merge_env import MergeEnv
env = MergeEnv()
env.seed(0)
env.reset()
env.road.vehicles = [env.vehicle]
env.vehicle.position = np.array([250., 8.])
env.vehicle.on_state_update()
check(env.vehicle.lane_index == ("b", "c", 2), env.vehicle.lane_index)
env.vehicle.target_speed = 30.
r = []
for s in (30., 15.):
    env.vehicle.speed = s
    env.vehicle.speed_index = 0
    r.append(env._reward(1))
check(r[0] > r[1], r)
''')

S("c24-stop-at-done", "C24", [(A, "            if self.done or self._is_terminal():\n                break\n", "            if self.done:\n                break\n")],
  "a collision in the middle of an action",
  "the simulation goes on after a terminal state until the end of the action",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 1})
env.seed(0)
env.reset()
o = env.road.vehicles[1]
o.position = env.vehicle.position + [5.5, 0]
o.speed = o.target_speed = 0.
t = env.time
obs, r, d, i = env.step(1)
check(d and env.time - t < 15, (d, env.time - t))
''')

S("c24-single-agent-cost", "C24,C23", [(IN, "        return float(self.vehicle.crashed)\n", "        return float(any(v.crashed for v in self.road.vehicles))\n")],
  "a collision between two other vehicles",
  "the cost signals collisions the ego vehicle has no part in",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv()
env.seed(0)
env.reset()
[v for v in env.road.vehicles if v is not env.vehicle][0].crashed = True
check(env._cost(1) == 0, env._cost(1))
''')

S("c25-compute-of-lists", "C25", [(PA, "        return -np.power(np.dot(np.abs(achieved_goal - desired_goal), self.REWARD_WEIGHTS), p)\n", "        return -np.power(np.sum(np.abs(achieved_goal - desired_goal) * self.REWARD_WEIGHTS), p)\n")],
  "the reward of a batch of goals at once (as replay buffers with relabelled goals compute it)",
  "the rewards of a batch are summed into one number",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
env.seed(0)
env.reset()
a, g = np.random.RandomState(0).rand(4, 6), np.random.RandomState(1).rand(4, 6)
r = env.compute_reward(a, g, {})
check(np.allclose(r, [env.compute_reward(a[i], g[i], {}) for i in range(4)]), r)
''')

S("c25-summon-penalty-weight", "C25,C23", [(SU, "            self.COLLISION_REWARD * self.vehicle.crashed\n", "            self.COLLISION_REWARD * (self.vehicle.crashed and self.vehicle.speed > 1)\n")],
  "a collision after which the vehicle has stopped, or that happened in reverse",
  "slow or reverse collisions are not penalised",
  '''
from highway_env.envs.summon_env import SummonEnv
env = SummonEnv()
env.seed(0)
env.reset()
env.vehicle.crashed = True
env.vehicle.speed = -3.
check(env.compute_reward(np.zeros(6), np.zeros(6), {}) == -5, env.compute_reward(np.zeros(6), np.zeros(6), {}))
''')

S("c26-merge-kept-obstacle", "C26", [(ME, "        road.objects.append(Obstacle(road, lbc.position(ends[2], 0)))\n", "        road.objects.append(Obstacle(road, lbc.position(ends[2] + 2 * lbc.VEHICLE_LENGTH, 0)))\n")],
  "a vehicle that drives to the very end of the merging lane",
  "the obstacle at the end of the ramp stands beyond the end",
  '''
from highway_env.envs.merge_env import MergeEnv
env = MergeEnv()
env.seed(0)
env.reset()
lane = env.road.network.get_lane(("b", "c", 2))
check(np.allclose(env.road.objects[0].position, lane.position(lane.length, 0)), env.road.objects[0].position)
''')

S("c26-two-way-front-heading", "C26", [(TW, "                              heading=road.network.get_lane((\"b\", \"a\", 0)).heading_at(200+100*i),\n", "                              heading=road.network.get_lane((\"b\", \"a\", 0)).heading_at(200+100*i) * (1 if i == 0 else -1) + (1e-2 if i else 0),\n")],
  "the second oncoming vehicle",
  "an oncoming vehicle is placed askew",
  '''
from highway_env.envs.two_way_env import TwoWayEnv
env = TwoWayEnv()
env.seed(0)
env.reset()
v = env.road.vehicles[-1]
check(abs(np.sin(v.heading)) < 1e-9, v.heading)
''')

S("c27-scaling-sign", "C27,C28", [(I, "        [np.dot(p(a), b[0]) - np.dot(n(a), b[1]),\n         np.dot(p(a), b[1]) - np.dot(n(a), b[0])])\n\n\ndef intervals_diff", "        [np.dot(p(a), b[0]) - np.dot(n(a), b[1]),\n         np.dot(p(a), b[1]) - np.dot(n(a), np.minimum(b[0], b[1] * 0 + np.abs(b[0])) if np.ndim(b[0]) == 0 else np.maximum(b[0], 0))])\n\n\ndef intervals_diff")],
  "a matrix with negative entries and an interval reaching negative values",
  "the upper bound of a scaled interval ignores the negative values of the interval",
  '''
from highway_env.interval import intervals_scaling
a = np.array([[-1., 0], [0, 1.]])
b = np.array([[-3., -3.], [-1., -1.]])
r = intervals_scaling(a, b[:, :, np.newaxis])
check(r[1].squeeze()[0] >= 3, r)
''')

S("c27-local-two-corners", "C27", [(I, "    longitudinal_i = np.array([min(corners_local[:, 0]), max(corners_local[:, 0])])\n    lateral_i = np.array([min(corners_local[:, 1]), max(corners_local[:, 1])])\n", "    longitudinal_i = np.sort(corners_local[[0, 3], 0])\n    lateral_i = np.array([min(corners_local[:, 1]), max(corners_local[:, 1])])\n")],
  "a lane that runs diagonally the other way",
  "the longitudinal interval only uses two corners of the box",
  '''
from highway_env.interval import interval_absolute_to_local
from highway_env.road.lane import StraightLane
lo, la = interval_absolute_to_local(np.array([[0., 0.], [2., 2.]]), StraightLane([0, 0], [10, -10]))
check(lo[1] - lo[0] > 2.8, lo)
''')


S("c28-deviation-order", "C28", [(I, "        dx_m = a0 @ x_m - da_p @ n(x_m) - da_n @ p(x_M) + p(d) @ o_m - n(d) @ o_M + b @ u\n", "        dx_m = a0 @ x_m - da_p @ n(x_m) - da_n @ p(x_m) + p(d) @ o_m - n(d) @ o_M + b @ u\n")],
  "a wide interval of positive states with negative deviations of the dynamics",
  "the lower bound uses the lower state where the upper one gives the extreme",
  '''
from highway_env.interval import LPV
l = LPV(np.array([1.]), np.array([[-1.]]), [np.array([[-.5]])], x_i=np.array([[.5], [2.]]))
s = l.step_interval_predictor(l.x_i_t, .1)
check(s[0, 0] <= .5 + .1 * (-.5 - .5 * 2) + 1e-9, s)
''')





S("c31-lateral-needed", "C31", [(G, "            if event.key == pygame.K_DOWN and action_type.longitudinal:\n                action[0] = -0.7\n", "            if event.key == pygame.K_DOWN and action_type.longitudinal:\n                action[0] = -0.7 if steering_index else -1\n")],
  "the brake key with throttle-only actions",
  "the brake key gives another command when there is no steering",
  '''
import pygame
from highway_env.envs.common.graphics import EventHandler
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "action": {"type": "ContinuousAction", "lateral": False}})
env.seed(0)
env.reset()
EventHandler.handle_event(env.action_type, pygame.event.Event(pygame.KEYDOWN, key=pygame.K_DOWN))
check(env.action_type.last_action[0] == -.7, env.action_type.last_action)
''')

S("c09-trajectory-sampling", "C09", [(G, "                                                                          1 / 3 / self.env.config[\"policy_frequency\"],\n", "                                                                          1 / 3,\n")],
  "another policy frequency than 1 Hz",
  "the planned trajectory is sampled every third of a second whatever the policy frequency",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "vehicles_count": 0, "policy_frequency": 5})
env.seed(0)
env.reset()
env.render("rgb_array")
env.viewer.set_agent_action_sequence([1, 1, 1])
check(len(env.viewer.vehicle_trajectory) == 9, len(env.viewer.vehicle_trajectory))
''')



# ---------------------------------------------------------------------------------------------------------------- C33
S("c33-shared-noise", "C33", [(LK, "                                      size=self.vehicle.state[[0, 2, 4, 5]].shape)", "                                      size=(1, 1))")],
  "state_noise positive, and comparing the components' errors with each other",
  "one single noise value is added to all four components of the observed state",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv({"state_noise": .5, "derivative_noise": 0.})
env.seed(0)
env.reset()
res = []
for _ in range(30):
    x = env.vehicle.state[[1, 2, 4, 5]].copy()
    res.append((env.state - x).ravel())
res = np.array(res)
check(np.max(np.ptp(res, axis=1)) > .1, "components of the noise are equal")
''')

S("c33-noise-mixed-up", "C33", [(LK, "               self.np_random.uniform(low=-self.config[\"derivative_noise\"],\n                                      high=self.config[\"derivative_noise\"],", "               self.np_random.uniform(low=-self.config[\"state_noise\"],\n                                      high=self.config[\"state_noise\"],")],
  "derivative_noise configured differently from state_noise",
  "the noise on the derivative has the amplitude configured for the state",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv({"state_noise": .5, "derivative_noise": 0.})
env.seed(0)
env.reset()
check(np.allclose(env.derivative, env.vehicle.derivative[[1, 2, 4, 5]]), "noisy derivative although its noise is zero")
''')

S("c33-one-sided-noise", "C33", [(LK, "               self.np_random.uniform(low=-self.config[\"state_noise\"],\n", "               self.np_random.uniform(low=0,\n")],
  "many observations (each alone is within the amplitude)",
  "the noise on the state is always positive: the observation is biased by half its amplitude",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv({"state_noise": .5})
env.seed(0)
env.reset()
x = env.vehicle.state[[1, 2, 4, 5]].copy()
res = np.array([(env.state - x).ravel() for _ in range(100)])
check(res.min() < -.1 and res.max() > .1, "range of the noise: %s %s" % (res.min(), res.max()))
''')

S("c33-stale-derivative", "C33,C24", [(LK, "        if not self.config[\"manual_control\"]:\n            self.action_type.act(action)\n        obs = self.observation_type.observe()\n", "        obs = self.observation_type.observe()\n        if not self.config[\"manual_control\"]:\n            self.action_type.act(action)\n")],
  "a steering different from the previous step's",
  "the observed derivative is the one under the previous steering command, not the one just applied",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv({"state_noise": 0., "derivative_noise": 0.})
env.seed(0)
env.reset()
env.step(np.array([0.]))
obs = env.step(np.array([1.]))[0]
check(obs["derivative"][2, 0] > 20, obs["derivative"])
''')

S("c33-reference-of-start", "C33", [(LK, "        psi_l = self.lane.heading_at(longi)\n", "        psi_l = self.lane.heading_at(max(longi - self.vehicle.LENGTH, 0))\n")],
  "a vehicle on the curved lane",
  "the reference heading is the lane's heading one car length behind the vehicle",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv()
env.seed(0)
env.reset()
lane = env.road.network.get_lane(("a", "b", 0))
env.lane = lane
env.vehicle.position = np.array(lane.position(30, .5))
s, _ = lane.local_coordinates(env.vehicle.position)
check(abs(env.reference_state[1, 0] - lane.heading_at(s)) < 1e-9, env.reference_state)
''')

S("c33-leave-at-end-only", "C33,C23", [(LK, "        if self.lanes and not self.lane.on_lane(self.vehicle.position):\n", "        if self.lanes and self.lane.local_coordinates(self.vehicle.position)[0] > self.lane.length:\n")],
  "a vehicle that leaves the first lane sideways, or is within a car length after its end",
  "the vehicle keeps following the first lane after having left it sideways",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv()
env.seed(0)
env.reset()
first = env.lane
env.vehicle.position = np.array(first.position(20, 8))
env.step(np.array([0.]))
check(env.lane is not first, "still on the lane that it left")
''')

S("c33-short-trajectory", "C33", [(LK, "        self.trajectory.append(copy.deepcopy(self.vehicle.state))\n", "        self.trajectory.append(copy.deepcopy(self.vehicle.state))\n        if len(self.trajectory) > 200:  # length of a gym episode\n            self.trajectory.pop(0)\n")],
  "more than 200 steps (no time limit wrapper, or several episodes)",
  "states stored first are dropped from the trajectory after 200 steps",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv()
env.seed(0)
env.reset()
for _ in range(230):
    env.step(np.array([0.]))
check(len(env.trajectory) == 230, len(env.trajectory))
''')

S("c33-attributes-once", "C33", [(O, "            attribute: getattr(self.env, attribute) for attribute in self.attributes\n", "            attribute: np.asarray(getattr(self.env, attribute), dtype=float) for attribute in dict.fromkeys(list(self.attributes) + [\"state\"])\n")],
  "a list of attributes without the state",
  "the state is observed even when it is not among the configured attributes",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv({"observation": {"type": "AttributesObservation", "attributes": ["reference_state"]}})
env.seed(0)
obs = env.reset()
check(set(obs) == {"reference_state"}, obs)
''')

S("c28-no-rotation", "C28", [(I, "            if np.isreal(eig_v).all():\n", "            if np.isreal(eig_v).all() and (np.real(eig_v) >= 0).all():\n")],
  "a stable non-cooperative system with real eigenvalues, started from a whole interval",
  "stable systems that need the change of coordinates are predicted without it, so that their intervals blow up instead of shrinking",
  '''
from highway_env.interval import LPV
t = np.array([[1., 3.], [1., 1.]])
a = t @ np.diag([-1., -3.]) @ np.linalg.inv(t)
lpv = LPV(np.zeros(2), a, [np.zeros((2, 2))], np.zeros((2, 1)), None, None, np.zeros((1, 1)), None, None, np.array([[-1., -1.], [1., 1.]]))
for _ in range(100):
    lpv.step(.05)
w = np.ptp(lpv.change_coordinates(lpv.x_i_t, back=True, interval=True), axis=0)
check(w.max() < 2, w)
''')

# ------------------------------------------------------------------------------------------------------ fourth batch
S("c01-shuffle-global", "C01", [(O, "            self.env.np_random.shuffle(obs[1:])\n", "            np.random.shuffle(obs[1:])\n")],
  "kinematics observations in shuffled order, with another state of the global generator",
  "the order of shuffled observations is drawn from numpy's global generator",
  '''
from highway_env.envs.highway_env import HighwayEnv
outs = []
for g in range(4):
    np.random.seed(g)
    env = HighwayEnv({"vehicles_count": 10, "observation": {"type": "Kinematics", "order": "shuffled", "see_behind": True}})
    env.seed(1)
    outs.append(env.reset())
check(all(np.array_equal(o, outs[0]) for o in outs), "observations differ")
''')

S("c06-origin-of-first", "C06", [(O, "                [v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles])", "                [v.to_dict(self.env.vehicle) for v in self.env.road.vehicles])")],
  "several agents with occupancy grids",
  "the grids of all agents are centred on the first one",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"controlled_vehicles": 2, "vehicles_count": 0, "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "OccupancyGrid"}},
                  "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}}})
env.seed(0)
env.reset()
a, b = env.controlled_vehicles
b.position = a.position + np.array([12., 0.])
o = env.observation_type.observe()
check(not np.array_equal(o[0][0], o[1][0]), "same grids")
''')

S("c08-stack-survives-reset", "C08", [(O, "        self.state = np.zeros(self.shape)\n", "        previous = getattr(env.observation_type, \"state\", None)\n        self.state = np.zeros(self.shape) if np.shape(previous) != self.shape else previous\n")],
  "a second episode with stacked frames",
  "the first observations of an episode contain the last frames of the previous one",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "screen_width": 84, "screen_height": 84, "vehicles_count": 5,
                  "observation": {"type": "GrayscaleObservation", "weights": [0.2989, 0.5870, 0.1140], "stack_size": 4, "observation_shape": (84, 84)}})
env.seed(0)
env.reset()
for _ in range(5):
    env.step(1)
obs = env.reset()
check(not obs[..., 0].any() and not obs[..., 1].any(), "frames of the previous episode")
''')

S("c10-ghost-obstacle", "C10", [(K, "        elif isinstance(other, Obstacle):\n            if not self.COLLISIONS_ENABLED:\n                return\n", "        elif isinstance(other, Obstacle):\n            if not Vehicle.COLLISIONS_ENABLED:\n                return\n")],
  "a vehicle whose own collisions are disabled meets an obstacle",
  "vehicles with collisions disabled still crash into obstacles",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2))
v = Vehicle(road, [0, 0], 0, 10)
v.COLLISIONS_ENABLED = False
road.vehicles.append(v)
road.objects.append(Obstacle(road, [3, 0]))
for _ in range(5):
    road.step(.1)
check(not v.crashed, "crashed")
''')

S("c22-yield-timer-kept", "C22", [(REG, "                        yielding_vehicle.is_yielding = True\n                        yielding_vehicle.yield_timer = 0\n", "                        if not getattr(yielding_vehicle, \"is_yielding\", False):\n                            yielding_vehicle.yield_timer = 0\n                        yielding_vehicle.is_yielding = True\n")],
  "a non-zero yield duration and a conflict that lasts for several regulation instants",
  "the yield duration is counted from the first instant of the conflict instead of the last",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.road.regulation import RegulatedRoad
from highway_env.vehicle.behavior import IDMVehicle
env = IntersectionEnv({"initial_vehicle_count": 0})
env.seed(0)
env.reset()
road = env.road
road.YIELD_DURATION = 2
a = IDMVehicle.make_on_lane(road, ("o0", "ir0", 0), 95, speed=8).plan_route_to("o2")
b = IDMVehicle.make_on_lane(road, ("o1", "ir1", 0), 95, speed=8).plan_route_to("o3")
road.vehicles = [a, b]
for _ in range(3):
    road.enforce_road_rules()
check(a.is_yielding and a.yield_timer == 0, (a.yield_timer,))
b.position = b.position + 500.
b.on_state_update()
for k in range(4):
    road.enforce_road_rules()
    check(a.is_yielding, "released after %d instants" % (k + 1))
''')

S("c24-steps-carry", "C24", [(A, "        self.time = self.steps = 0\n", "        self.time = 0\n        self.steps = 0 if self.config[\"policy_frequency\"] <= 1 else self.steps % self.config[\"policy_frequency\"]\n")],
  "a second episode with a policy frequency above 1 Hz, when the first one stopped in the middle of a second",
  "episodes after one that ended within a second are up to one second shorter",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "policy_frequency": 4, "simulation_frequency": 8, "duration": 3})
env.seed(0)
env.reset()
for _ in range(3):
    env.step(1)
env.reset()
n = 0
done = False
while not done:
    done = env.step(1)[2]
    n += 1
check(n == 12, n)
''')

S("c03-simplify-objects", "C03", [(A, "            state_copy.vehicle, self.PERCEPTION_DISTANCE)\n\n        return state_copy\n", "            state_copy.vehicle, self.PERCEPTION_DISTANCE)\n        state_copy.road.objects = [o for o in state_copy.road.objects if state_copy.vehicle.front_distance_to(o) > 0]\n\n        return state_copy\n")],
  "an environment with an obstacle or a goal behind the ego vehicle",
  "simplification also removes the road objects behind the ego vehicle, the goal of the parking lot included",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
ok = True
for s in range(6):
    env.seed(s)
    env.reset()
    new = env.simplify()
    ok = ok and len(new.road.objects) == len(env.road.objects)
check(ok, "objects removed")
''')

S("c14-prune-by-distance", "C14,C26", [(R, "                for _id, l in enumerate(lanes):\n                    distances.append(l.distance_with_heading(position, heading))\n", "                for _id, l in enumerate(lanes):\n                    if distances and l.distance(position) > nearest + 2:\n                        continue  # too far, whatever the heading\n                    nearest = min(l.distance(position), nearest) if distances else l.distance(position)\n                    distances.append(l.distance_with_heading(position, heading))\n")],
  "a pose whose heading differs by more than two radians from that of the nearest lane, and another lane with the right heading between two and pi metres farther",
  "lanes more than two metres farther than the nearest one are not considered even when their heading fits much better",
  '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0]))
net.add_lane("b", "a", StraightLane([100, 3.], [0, 3.]))
p = np.array([50., .3])
check(net.get_closest_lane_index(p, np.pi) == ("b", "a", 0), net.get_closest_lane_index(p, np.pi))
check(net.get_closest_lane_index(p, 0) == ("a", "b", 0))
''')

S("c20-arrived-leaves", "C20", [(B, "            if np.sign(lane_index[2] - self.target_lane_index[2]) != np.sign(self.route[0][2] - self.target_lane_index[2]):\n", "            if (lane_index[2] - self.target_lane_index[2]) * (self.route[0][2] - self.target_lane_index[2]) < 0:\n")],
  "a driver that already is on the lane that its route names",
  "a driver leaves the lane that its route names at the next decision",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(3), np_random=np.random.RandomState(0))
v = IDMVehicle(road, [0, 4], 0, 15, target_speed=20, route=[("0", "1", 1)])
road.vehicles.append(v)
for _ in range(60):
    road.act()
    road.step(1 / 15)
    check(v.target_lane_index[2] == 1, v.target_lane_index)
''')

S("c21-defensive-shared", "C21,C01", [(B, "        self.ACCELERATION_PARAMETERS = self.ACCELERATION_RANGE[0] + ua*(self.ACCELERATION_RANGE[1] -\n", "        type(self).ACCELERATION_PARAMETERS = self.ACCELERATION_RANGE[0] + ua*(self.ACCELERATION_RANGE[1] -\n")],
  "two drivers of the same class of which one is randomised",
  "randomising a driver changes the parameters of all drivers of its class",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
a, b = LinearVehicle(road, [0, 0], 0, 15), LinearVehicle(road, [50, 0], 0, 15)
before = np.array(a.ACCELERATION_PARAMETERS)
b.randomize_behavior()
check(np.array_equal(before, a.ACCELERATION_PARAMETERS), a.ACCELERATION_PARAMETERS)
''')

S("c23-merge-first-only", "C23", [(ME, "                          (vehicle.target_speed - vehicle.speed) / vehicle.target_speed\n", "                          (vehicle.target_speed - vehicle.speed) / vehicle.target_speed\n                break\n")],
  "several vehicles on the merging lane at once",
  "only one slow vehicle on the merging lane is counted in the courtesy penalty",
  '''
from highway_env.envs.merge_env import MergeEnv
from highway_env.vehicle.behavior import IDMVehicle
env = MergeEnv()
env.seed(0)
env.reset()
env.road.vehicles = env.road.vehicles[:1]
r0 = env._reward(1)
d = []
for k in range(2):
    v = IDMVehicle.make_on_lane(env.road, ("b", "c", 2), 20 + 30 * k, speed=10)
    v.target_speed = 30
    env.road.vehicles.append(v)
    d.append(env._reward(1) - r0)
check(d[0] < 0 and abs(d[1] - 2 * d[0]) < 1e-9, d)
''')

S("c24-close-restart", "C24,C31", [(A, "        self.time = self.steps = 0\n        self.done = False\n", "        self.time = self.steps = 0\n")],
  "an environment that was closed and is used again after a reset",
  "after close and reset, every step only simulates one frame",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0})
env.seed(0)
env.close()
env.reset()
x = env.vehicle.position[0]
env.step(1)
check(env.vehicle.position[0] - x > 20, env.vehicle.position[0] - x)
''')

S("c25-summon-crash-of-first-info", "C25", [(SU, "        return super().compute_reward(achieved_goal, desired_goal, info, p) + \\\n            self.COLLISION_REWARD * self.vehicle.crashed\n", "        return super().compute_reward(achieved_goal, desired_goal, info, p) + \\\n            self.COLLISION_REWARD * (self.vehicle.crashed and self.steps > 1)\n")],
  "a crash within the first decision",
  "a crash in the first step of an episode is not penalised",
  '''
from highway_env.envs.summon_env import SummonEnv
env = SummonEnv()
env.seed(0)
env.reset()
g = np.zeros(6)
env.vehicle.crashed = True
env.steps = 1
check(env.compute_reward(g, g, {}) == env.COLLISION_REWARD, env.compute_reward(g, g, {}))
''')

S("c26-challenger-late", "C26", [(IN, "                if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:\n", "                if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20 + 10 * ego_id:\n")],
  "several controlled vehicles",
  "vehicles up to 30 m around the second agent, which may be the first agent or the challenger, are removed",
  '''
from highway_env.envs.intersection_env import MultiAgentIntersectionEnv
from highway_env.vehicle.behavior import IDMVehicle
env = MultiAgentIntersectionEnv()
counts = 0
for s in range(40):
    env.seed(s)
    env.reset()
    b = env.controlled_vehicles[1]
    counts += any(20 <= np.linalg.norm(v.position - b.position) < 30 for v in env.road.vehicles if v not in env.controlled_vehicles)
check(counts > 0, "nobody between 20 and 30 m of the second agent")
''')

S("c26-exit-clears-early", "C26", [(IN, "                                     >= vehicle.lane.length - 4 * vehicle.LENGTH\n", "                                     >= vehicle.lane.length - 4 * vehicle.speed\n")],
  "vehicles leaving the scene faster or slower than 5 m/s",
  "fast vehicles disappear well before the end of the exit, slow ones later",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.vehicle.behavior import IDMVehicle
env = IntersectionEnv({"initial_vehicle_count": 0, "spawn_probability": 0})
env.seed(0)
env.reset()
v = IDMVehicle.make_on_lane(env.road, ("il1", "o1", 0), 70, speed=9)
v.plan_route_to("o1")
env.road.vehicles.append(v)
env._clear_vehicles()
check(v in env.road.vehicles, "cleared too early")
''')

S("c17-idle-cancels", "C17,C16", [(C, "        if action == \"FASTER\":\n            self.speed_index = self.speed_to_index(self.speed) + 1\n", "        if action == \"IDLE\":\n            self.speed_index = self.speed_to_index(self.speed)\n        elif action == \"FASTER\":\n            self.speed_index = self.speed_to_index(self.speed) + 1\n")],
  "the idle action while the vehicle is still changing its speed",
  "idling makes the vehicle settle on the speed closest to its current one",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
road = Road(RoadNetwork.straight_road_network(1))
v = MDPVehicle(road, [0, 0], 0, 20)
road.vehicles.append(v)
v.act("FASTER")
t = v.target_speed
v.step(1 / 15)
v.act("IDLE")
check(v.target_speed == t, (t, v.target_speed))
''')

S("c18-clip-after-map", "C18", [(ACT, "        if self.clip:\n            action = np.clip(action, -1, 1)\n", "        if self.clip and np.max(np.abs(action)) > 1:\n            action = action / np.max(np.abs(action))\n")],
  "an action of two axes of which one is out of range",
  "out of range actions are scaled as a whole instead of clipped per axis",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
env.seed(0)
env.reset()
env.action_type.act(np.array([2., .5]))
check(abs(env.vehicle.action["steering"] - .5 * np.pi / 4) < 1e-9, env.vehicle.action)
''')

S("c31-quit-keeps-viewer", "C31", [(A, "        if self.viewer is not None:\n            self.viewer.close()\n        self.viewer = None\n", "        if self.viewer is not None:\n            self.viewer.close()\n")],
  "closing the window, then rendering again",
  "the closed viewer stays attached to the environment",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"offscreen_rendering": True, "vehicles_count": 3})
env.seed(0)
env.reset()
env.render("rgb_array")
env.close()
check(env.viewer is None, "still has its viewer")
''')

S("c32-timestep-float", "C32", [(C, "                v.act()  # Low-level control action\n", "                if t % 2:\n                    v.act()  # Low-level control action\n")],
  "a prediction with a lane or speed change",
  "predicted vehicles update their low-level commands at every other frame only",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
road = Road(RoadNetwork.straight_road_network(3))
v = MDPVehicle(road, [0, 0], 0, 20)
road.vehicles.append(v)
p = v.predict_trajectory(["LANE_RIGHT"], 1, 1, 1 / 15)
v.act("LANE_RIGHT")
for _ in range(15):
    v.act()
    v.step(1 / 15)
check(np.allclose(p[-1].position, v.position), (p[-1].position, v.position))
''')

S("c16-pursuit-at-low-speed", "C16", [(C, "        lane_next_coords = lane_coords[0] + self.speed * self.PURSUIT_TAU\n        lane_future_heading = target_lane.heading_at(lane_next_coords)\n", "        lane_next_coords = lane_coords[0] + np.clip(self.speed * self.PURSUIT_TAU, 0, 2)\n        lane_future_heading = target_lane.heading_at(lane_next_coords)\n")],
  "curved lanes at speeds above 20 m/s",
  "the heading anticipated on curves saturates at 2 m, so fast vehicles drift outwards",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import CircularLane
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", CircularLane([0, 0], 60, 0, 3))
road = Road(net)
v = ControlledVehicle(road, net.get_lane(("a", "b", 0)).position(10, 0), net.get_lane(("a", "b", 0)).heading_at(10), 35)
lane = net.get_lane(("a", "b", 0))
s, r = lane.local_coordinates(v.position)
want = np.arcsin(np.clip(v.LENGTH / 2 / v.speed * v.KP_HEADING * (lane.heading_at(s + v.speed * v.PURSUIT_TAU) - v.heading), -1, 1))
check(abs(v.steering_control(v.target_lane_index) - want) < 1e-6, (v.steering_control(v.target_lane_index), want))
''')

S("c13-reachable-width-of-default", "C13", [(L, "        return abs(r) + max(s - self.length, 0) + max(0 - s, 0)\n\n", "        return max(abs(r), s - self.length, 0 - s)\n\n")],
  "a position both beside and beyond the end of a lane",
  "the distance to a lane is not the documented L1 distance beyond its ends",
  '''
from highway_env.road.lane import StraightLane
lane = StraightLane([0, 0], [10, 0])
check(abs(lane.distance(np.array([13., 2.])) - 5) < 1e-9, lane.distance(np.array([13., 2.])))
''')

S("c05-first-vehicle-velocity", "C05", [(K, "            'vx': self.velocity[0],\n            'vy': self.velocity[1],\n", "            'vx': self.velocity[0],\n            'vy': self.velocity[1] if abs(self.velocity[1]) > .01 * abs(self.speed) else 0,\n")],
  "vehicles whose heading differs slightly from the x axis",
  "small lateral velocities are observed as zero",
  '''
from highway_env.vehicle.kinematics import Vehicle
from highway_env.road.road import Road, RoadNetwork
v = Vehicle(Road(RoadNetwork.straight_road_network(1)), [0, 0], .008, 20)
check(abs(v.to_dict()["vy"] - 20 * np.sin(.008)) < 1e-9, v.to_dict()["vy"])
''')

S("c02-history-shared", "C02,C09", [(K, "        self.history = deque(maxlen=30)\n", "        self.history = deque(maxlen=30)\n\n    def __deepcopy__(self, memo):\n        import copy\n        result = self.__class__.__new__(self.__class__)\n        memo[id(self)] = result\n        for k, v in self.__dict__.items():\n            setattr(result, k, v if k in (\"history\", \"log\") else copy.deepcopy(v, memo))\n        return result\n")],
  "copies of an environment that records the past of its vehicles, of which one is stepped",
  "the recorded past of the vehicles is shared between an environment and its copies",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 3, "show_trajectories": True})
env.seed(0)
env.reset()
env.step(1)
before = [list(v.history) for v in env.road.vehicles]
copy.deepcopy(env).step(1)
check([list(v.history) for v in env.road.vehicles] == before, "the past of the original changed")
''')

# ---------------------------------------------------------------------------------------------------------------- fifth batch
S("c07-skip-far", "C07", [(MDP, "            margin = other.LENGTH / 2 + vehicle.LENGTH / 2\n", "            if abs(vehicle.lane_distance_to(other)) > horizon * vehicle.speed:\n                continue\n            margin = other.LENGTH / 2 + vehicle.LENGTH / 2\n")],
  "a slow observer and traffic farther than its own speed times the horizon",
  "vehicles that are met within the horizon at the higher speeds are missing from the grid",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.envs.common.finite_mdp import compute_ttc_grid
from highway_env.vehicle.controller import MDPVehicle
env = HighwayEnv({"vehicles_count": 0})
env.seed(0)
env.reset()
a = MDPVehicle(env.road, [100, 0], 0, 2)
b = MDPVehicle(env.road, [180, 0], 0, 5)
env.road.vehicles = [a, b]
env.controlled_vehicles = [a]
check(compute_ttc_grid(env, 1., 10.)[-1, 0, 3] == 1, "no collision is predicted at 30 m/s")
''')

S("c09-recording-draws", "C09,C01", [(K, "            if self.road.record_history:\n                self.history.appendleft", "            if self.road.record_history:\n                if len(self.history) == self.history.maxlen - 1:\n                    self.road.np_random.rand()\n                self.history.appendleft")],
  "vehicles whose recorded past gets full, and traffic that draws random numbers afterwards",
  "recording the past of the vehicles draws from the random generator of the environment",
  '''
from highway_env.envs.highway_env import HighwayEnv
runs = []
for show in (False, True):
    env = HighwayEnv({"vehicles_count": 3, "show_trajectories": show})
    env.seed(0)
    env.reset()
    for _ in range(4):
        env.step(1)
    runs.append(env.np_random.rand())
check(runs[0] == runs[1], runs)
''')

S("c10-far-traffic", "C10", [(R, "            for other in self.vehicles:\n                vehicle.check_collision(other)\n", "            if abs(vehicle.position - self.vehicles[0].position).max() > 180:\n                continue\n            for other in self.vehicles:\n                vehicle.check_collision(other)\n")],
  "a collision far from the first vehicle of the road",
  "collisions more than 180 m away from the first vehicle are not detected",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
road.vehicles = [Vehicle(road, [0, 0]), Vehicle(road, [200, 0]), Vehicle(road, [202, 0])]
road.step(.01)
check(road.vehicles[1].crashed and road.vehicles[2].crashed, "no collision")
''')

S("c14-plan-from-target", "C14", [(C, "            path = self.road.network.shortest_path(self.lane_index[1], destination)", "            path = self.road.network.shortest_path(getattr(self, 'target_lane_index', self.lane_index)[1], destination)")],
  "a route planned while the target lane is on another road than the current lane",
  "routes are planned from the end of the target road instead of the current one",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0]))
net.add_lane("b", "c", StraightLane([100, 0], [200, 0]))
net.add_lane("c", "d", StraightLane([200, 0], [300, 0]))
v = ControlledVehicle(Road(net), [50, 0], 0, 10, target_lane_index=("b", "c", 0))
v.plan_route_to("d")
check([r[:2] for r in v.route] == [("a", "b"), ("b", "c"), ("c", "d")], v.route)
''')

S("c15-one-object", "C15", [(R, "        for v in self.vehicles + self.objects:\n", "        for v in self.vehicles + self.objects[:1]:\n")],
  "several obstacles on a road",
  "only the first object of the road can be a neighbour",
  '''
from highway_env.road.objects import Obstacle
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
v = Vehicle(road, [0, 0])
road.vehicles = [v]
road.objects = [Obstacle(road, [100, 0]), Obstacle(road, [50, 0])]
check(road.neighbour_vehicles(v)[0] is road.objects[1], "the nearer obstacle is not found")
''')

S("c15-neighbour-window", "C15", [(R, "                s_v, lat_v = lane.local_coordinates(v.position)\n                if not", "                if abs(v.position - vehicle.position).max() > 100:\n                    continue\n                s_v, lat_v = lane.local_coordinates(v.position)\n                if not")],
  "a nearest vehicle more than 100 m away",
  "vehicles more than 100 m away are nobody's neighbours",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
v = Vehicle(road, [0, 0])
road.vehicles = [v, Vehicle(road, [120, 0])]
check(road.neighbour_vehicles(v)[0] is road.vehicles[1], "not found")
''')

S("c22-skip-far", "C22", [(REG, "        times = np.arange(step, horizon, step)\n", "        if np.linalg.norm(v1.position - v2.position) > 30:\n            return False\n        times = np.arange(step, horizon, step)\n")],
  "fast vehicles that meet within the horizon although they are more than 30 m apart",
  "conflicts between vehicles more than 30 m apart are not detected",
  '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.road.regulation import RegulatedRoad
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([-100, 0], [100, 0], priority=1))
net.add_lane("c", "d", StraightLane([0, -100], [0, 100], priority=3))
road = RegulatedRoad(net)
u, v = ControlledVehicle(road, [-35, 0], 0, 20), ControlledVehicle(road, [0, -35], np.pi / 2, 20)
u.plan_route_to("b")
v.plan_route_to("d")
road.vehicles = [u, v]
check(RegulatedRoad.is_conflict_possible(u, v), "no conflict")
''')

S("c24-arrival-any", "C24,C23", [(IN, "               or all(self.has_arrived(vehicle) for vehicle in self.controlled_vehicles) \\\n", "               or any(self.has_arrived(vehicle) for vehicle in self.controlled_vehicles) \\\n")],
  "several agents of which one has left the intersection before the others",
  "the episode ends when one agent has arrived",
  '''
from highway_env.envs.intersection_env import MultiAgentIntersectionEnv
env = MultiAgentIntersectionEnv()
env.seed(0)
env.reset()
v = env.controlled_vehicles[0]
lane = ("il1", "o1", 0)
v.position = env.road.network.get_lane(lane).position(40, 0)
v.heading = env.road.network.get_lane(lane).heading_at(40)
v.on_state_update()
check(env.has_arrived(v), "not arrived")
check(not any(env.has_arrived(w) for w in env.controlled_vehicles[1:]) and not any(w.crashed for w in env.controlled_vehicles), "scene")
check(not env._is_terminal(), "the episode is over")
''')

S("c30-last-samples", "C30,C21", [(B, "        data[\"longitudinal\"][\"features\"].append(features)\n        data[\"longitudinal\"][\"outputs\"].append(output)\n", "        data[\"longitudinal\"][\"features\"] = data[\"longitudinal\"][\"features\"][-29:] + [features]\n        data[\"longitudinal\"][\"outputs\"] = data[\"longitudinal\"][\"outputs\"][-30:] + [output]\n")],
  "more than 30 collected samples",
  "the features and outputs collected by linear drivers get out of step after 30 samples",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import LinearVehicle
road = Road(RoadNetwork.straight_road_network(1))
v = LinearVehicle(road, [0, 0], 0, 20)
road.vehicles = [v]
for _ in range(40):
    v.act()
    v.step(.1)
d = v.data["longitudinal"]
check(len(d["features"]) == len(d["outputs"]), (len(d["features"]), len(d["outputs"])))
''')

S("c13-rounded-cache", "C13", [(L, "    def distance(self, position: np.ndarray):\n", "    def distance(self, position: np.ndarray):\n        key = tuple(np.round(position, 1))\n        cache = self.__dict__.setdefault('_distances', {})\n        if key not in cache:\n            cache[key] = self._distance(position)\n        return cache[key]\n\n    def _distance(self, position: np.ndarray):\n")],
  "two positions within the same decimetre",
  "the distance to a lane is the one of the first position seen in the same decimetre",
  '''
from highway_env.road.lane import StraightLane
lane = StraightLane([0, 0], [10, 0])
lane.distance(np.array([5, 1.02]))
check(abs(lane.distance(np.array([5, .98])) - .98) < 1e-9, lane.distance(np.array([5, .98])))
''')

S("c30-suffix-any", "C30", [(E, "                elif len(known_route) < len(route) and route[:len(known_route)] == known_route:\n", "                elif len(known_route) < len(route) and route[:1] == known_route[:1]:\n")],
  "a vehicle that has kept a short hypothesis and meets an intersection with several ways out",
  "hypotheses are replaced with routes that only share their first lane",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0]))
net.add_lane("b", "c", StraightLane([100, 0], [200, 0]))
net.add_lane("b", "d", StraightLane([100, 0], [100, 100]))
net.add_lane("b", "e", StraightLane([100, 0], [100, -100]))
net.add_lane("c", "f", StraightLane([200, 0], [300, 0]))
v = MultipleModelVehicle(Road(net), [50, 0], 0, 10)
v.route = [("a", "b", 0), ("b", "c", 0)]
v.data = [([("a", "b", 0), ("b", "e", 0)], {"x": 1}), ]
routes0 = v.get_routes_at_intersection()
known = [[("a", "b", 0), ("b", "e", 0)]]
long = [("a", "b", 0), ("b", "c", 0), ("c", "f", 0)]
v.get_routes_at_intersection = lambda: [list(long)]
v.data = [(list(known[0]), {})]
v.update_possible_routes()
check([r for r, _ in v.data] == [known[0], long], [r for r, _ in v.data])
''')

S("c29-front-interval-initial", "C29", [(P, "                front_interval = front_vehicle.interval\n", "                front_interval = VehicleInterval(front_vehicle)\n")],
  "a leader that is itself uncertain",
  "the observer takes an uncertain leader for a certain one",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
road = Road(RoadNetwork.straight_road_network(1))
u, v = IntervalVehicle(road, [0, 0], 0, 20), IntervalVehicle(road, [40, 0], 0, 20)
road.vehicles = [u, v]
v.interval.speed = np.array([10., 30.])
check(np.allclose(u.get_front_interval().speed, [10, 30]), u.get_front_interval().speed)
''')

S("c28-box-ignored", "C28", [(I, "        self.x_i = np.array(x_i) if x_i is not None else np.array([self.x0, self.x0])\n", "        self.x_i = np.array(x_i) if x_i is not None and np.ndim(x_i) == 3 else np.array([self.x0, self.x0])\n")],
  "an initial box of states",
  "the initial box of states is replaced with the nominal state",
  '''
from highway_env.interval import LPV
lpv = LPV([1., 0.], [[-1., 0.], [0., -1.]], [], b=np.eye(2), x_i=[[0., -1.], [2., 1.]])
check(np.allclose(lpv.change_coordinates(lpv.x_i_t, back=True, interval=True), [[0, -1], [2, 1]]), lpv.x_i_t)
''')

S("c05-pad-before-normalise", "C05", [(O, "                 for v in close_vehicles[-self.vehicles_count + 1:]])[self.features],\n", "                 for v in close_vehicles[-self.vehicles_count + 1:] if v.speed or not self.clip])[self.features],\n")],
  "a stopped vehicle near the ego",
  "stopped vehicles are not observed",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.vehicle.kinematics import Vehicle
env = HighwayEnv({"vehicles_count": 0, "observation": {"type": "Kinematics"}})
env.seed(0)
env.reset()
env.road.vehicles += [Vehicle(env.road, env.vehicle.position + [20, 0], 0, 0), Vehicle(env.road, env.vehicle.position + [40, 0], 0, 20)]
check(env.observation_type.observe()[:, 0].sum() == 3, env.observation_type.observe())
''')

S("c06-average-layers", "C06", [(O, "                        self.grid[layer, cell[1], cell[0]] = vehicle[feature]\n", "                        self.grid[layer, cell[1], cell[0]] = vehicle[feature] or self.grid[layer, cell[1], cell[0]]\n")],
  "two vehicles in one cell, the later of which has a feature that is exactly zero",
  "a cell shows features of different vehicles",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.vehicle.kinematics import Vehicle
env = HighwayEnv({"vehicles_count": 0, "observation": {"type": "OccupancyGrid", "features": ["presence", "vx", "vy"]}})
env.seed(0)
env.reset()
p = env.vehicle.position
env.road.vehicles += [Vehicle(env.road, p + [10.5, 0], 0, 5), Vehicle(env.road, p + [11, 0], 0, env.vehicle.speed)]
g = env.observation_type.observe()
c = [int((10.5 + 27.5) // 5), int(27.5 // 5)]
check(g[0, c[1], c[0]] == 1 and abs(g[1, c[1], c[0]]) < 1e-9, g[:, c[1], c[0]])
''')

S("c19-objects-brake", "C19", [(B, "        if front_vehicle:\n            d = ego_vehicle.lane_distance_to(front_vehicle)\n", "        if front_vehicle and not (front_vehicle.speed == 0 and getattr(front_vehicle, 'hit', False)):\n            d = ego_vehicle.lane_distance_to(front_vehicle)\n")],
  "an obstacle that has already been hit",
  "drivers ignore an obstacle that somebody has hit before",
  '''
from highway_env.road.objects import Obstacle
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(1))
v = IDMVehicle(road, [0, 0], 0, 20)
o = Obstacle(road, [40, 0])
road.vehicles, road.objects = [v], [o]
a = v.acceleration(v, o)
o.hit = True
check(v.acceleration(v, o) == a, "the acceleration differs")
''')

S("c20-mobil-free-road", "C20", [(B, "        if new_following_pred_a < -self.LANE_CHANGE_MAX_BRAKING_IMPOSED:\n            return False\n\n        # Do I", "        if new_preceding and new_following_pred_a < -self.LANE_CHANGE_MAX_BRAKING_IMPOSED:\n            return False\n\n        # Do I")],
  "a lane that is free ahead but not behind",
  "drivers cut into a lane that is free ahead although the vehicle behind has to brake hard",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2))
v, lead, rear = IDMVehicle(road, [100, 0], 0, 15), IDMVehicle(road, [115, 0], 0, 5), IDMVehicle(road, [85, 4], 0, 30)
road.vehicles = [v, lead, rear]
check(not v.mobil(("0", "1", 1)), "unsafe lane change")
''')

S("c32-record-in-prediction", "C32,C09", [(C, "            states.append(copy.deepcopy(v))", "            states.append(v if len(states) > 40 else copy.deepcopy(v))")],
  "predictions with more than 40 states",
  "the late states of long predictions are all the same object",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
road = Road(RoadNetwork.straight_road_network(3))
v = MDPVehicle(road, [0, 0], 0, 20)
road.vehicles.append(v)
p = v.predict_trajectory(["IDLE"] * 8, 1, .1, 1 / 10)
check(len({round(float(s.position[0]), 6) for s in p}) == len(p), [s.position[0] for s in p])
''')

S("c03-randomise-only-uncrashed", "C03", [(A, "            if isinstance(v, IDMVehicle):\n                v.randomize_behavior()\n", "            if isinstance(v, IDMVehicle) and v.lane_index == v.target_lane_index:\n                v.randomize_behavior()\n")],
  "drivers that are changing lane when their behaviour is randomised",
  "drivers that are changing lane keep their behaviour",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"other_vehicles_type": "highway_env.vehicle.behavior.LinearVehicle", "vehicles_count": 3})
env.seed(0)
env.reset()
v = env.road.vehicles[1]
v.target_lane_index = ("0", "1", (v.lane_index[2] + 1) % 4)
w = env.randomize_behaviour().road.vehicles[1]
check(list(w.ACCELERATION_PARAMETERS) != list(v.ACCELERATION_PARAMETERS), "same parameters")
''')

S("c01-seed-same-skipped", "C01", [(A, "        self.np_random, seed = seeding.np_random(seed)\n        return [seed]\n", "        if seed is None or seed != getattr(self, '_seed', None):\n            self.np_random, self._seed = seeding.np_random(seed)\n        return [self._seed]\n")],
  "an environment that is seeded again with the seed it already has",
  "seeding again with the same seed does not restart the random sequence",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv()
xs = []
for _ in range(2):
    env.seed(5)
    env.reset()
    xs.append([tuple(v.position) for v in env.road.vehicles])
check(xs[0] == xs[1], "the episodes differ")
''')

S("c17-crashed-unavailable", "C17,C04", [(A, "        actions = [self.action_type.actions_indexes['IDLE']]\n        for l_index", "        actions = [self.action_type.actions_indexes['IDLE']]\n        if self.vehicle.crashed:\n            return []\n        for l_index")],
  "the available actions of a crashed agent",
  "no action is available once the agent has crashed",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv()
env.seed(0)
env.reset()
env.vehicle.crashed = True
check(env.action_type.actions_indexes["IDLE"] in env.get_available_actions(), "IDLE is not available")
''')

S("c18-clip-disabled", "C18", [(ACT, "        if self.clip:\n            action = np.clip(action, -1, 1)\n", "        if self.clip and np.abs(action).max() < 10:\n            action = np.clip(action, -1, 1)\n")],
  "actions far out of range",
  "actions more than ten times out of range are not clipped",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv()
env.seed(0)
env.reset()
env.action_type.act(np.array([50., 0.]))
check(abs(env.vehicle.action["acceleration"] - env.action_type.acceleration_range[1]) < 1e-9, env.vehicle.action)
''')


S("c10-fast-landmark", "C10,C25", [(K, "            if self._is_colliding(other):\n                other.hit = True\n", "            if abs(self.speed) < 22 and self._is_colliding(other):\n                other.hit = True\n")],
  "a landmark passed at more than 22 m/s",
  "fast vehicles do not hit landmarks",
  '''
from highway_env.road.objects import Landmark
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1))
v = Vehicle(road, [0, 0], 0, 30)
m = Landmark(road, [1, 0])
road.vehicles, road.objects = [v], [m]
road.step(.01)
check(m.hit, "not hit")
''')

S("c26-lane-when-moved", "C26,C11", [(K, "        if self.road:\n            self.lane_index = self.road.network.get_closest_lane_index(self.position, self.heading)\n            self.lane = self.road.network.get_lane(self.lane_index)\n", "        if self.road:\n            if abs(self.position - getattr(self, '_located', np.inf)).max() > 1:\n                self.lane_index = self.road.network.get_closest_lane_index(self.position, self.heading)\n                self.lane = self.road.network.get_lane(self.lane_index)\n                self._located = self.position.copy()\n")],
  "a vehicle that crosses the border of a lane within a metre of where its lane was last found",
  "the current lane of vehicles is only updated every metre",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2))
v = Vehicle(road, [0, 1.5], 0, 0)
v.step(.1)
check(v.lane_index[2] == 0, v.lane_index)
v.position = np.array([.3, 2.3])
v.step(.1)
check(v.lane_index[2] == 1, v.lane_index)
''')

S("c11-slow-speed-floor", "C11", [(K, "        self.speed += self.action['acceleration'] * dt\n", "        self.speed += self.action['acceleration'] * dt\n        if abs(self.speed) < 1e-2 and self.action['acceleration'] < 0:\n            self.speed = 0.\n")],
  "a vehicle that brakes through (almost) exactly zero speed",
  "speeds below 1 cm/s are rounded to a standstill while braking",
  '''
from highway_env.vehicle.kinematics import Vehicle
v = Vehicle(None, [0, 0], 0, .1)
v.act({"steering": 0, "acceleration": -1})
v.step(.095)
check(abs(v.speed - .005) < 1e-9, v.speed)
''')

S("c11-heading-wrapped", "C11", [(K, "        self.heading += self.speed * np.sin(beta) / (self.LENGTH / 2) * dt\n", "        self.heading += self.speed * np.sin(beta) / (self.LENGTH / 2) * dt\n        if self.heading > 3 * np.pi:\n            self.heading -= 3 * np.pi\n")],
  "a vehicle that has turned more than one and a half times",
  "the heading jumps by 3 pi",
  '''
from highway_env.vehicle.kinematics import Vehicle
v = Vehicle(None, [0, 0], 9.42, 5)
v.act({"steering": .3, "acceleration": 0})
v.step(.1)
check(9.42 < v.heading < 9.8, v.heading)
''')

S("c12-wrapped-slip", "C12", [(D, "        theta_vr = np", "        theta_vr = .9 * np")],
  "any lateral motion",
  "the rear tyres react to 90 % of their slip angle",
  '''
from highway_env.vehicle.dynamics import BicycleVehicle
v = BicycleVehicle(None, [0, 0], 0, 20)
v.lateral_speed = 1.
v.action = {"steering": 0, "acceleration": 0}
f = 2 * v.FRICTION_FRONT * (0 - np.arctan2(1, 20)), 2 * v.FRICTION_REAR * (0 - np.arctan2(1, 20))
check(abs(v.derivative[5, 0] - 1 / v.INERTIA_Z * (v.LENGTH_A * f[0] - v.LENGTH_B * f[1])) < 1e-9, v.derivative)
''')

S("c24-two-way-cost-target", "C24,C23", [(TW, "float(self.vehicle.lane_index[2] == 0)/15", "float(self.vehicle.target_lane_index[2] == 0)/15")],
  "an ego in the middle of an overtaking manoeuvre",
  "the cost is that of the target lane instead of the occupied one",
  '''
from highway_env.envs.two_way_env import TwoWayEnv
env = TwoWayEnv()
env.seed(0)
env.reset()
env.vehicle.target_lane_index = ("a", "b", 0)
check(env._cost(1) == 0, env._cost(1))
''')

# ---------------------------------------------------------------- sixth batch

S("c17-third-agent", "C17,C04", [(ACT, "            action_type = action_factory(self.env, self.action_config)\n            action_type.controlled_vehicle = vehicle\n", "            action_type = action_factory(self.env, self.action_config)\n            action_type.controlled_vehicle = self.env.controlled_vehicles[min(len(self.agents_action_types), 1)]\n")],
  "at least three agents",
  "the actions of the third and later agents go to the second one",
  '''
import gym, highway_env
env = gym.make("intersection-multi-agent-v0").unwrapped
env.configure({"controlled_vehicles": 3, "initial_vehicle_count": 0})
env.seed(0)
env.reset()
env.action_type.act((1, 1, 0))
v = env.controlled_vehicles
check(v[2].target_speed < v[1].target_speed, [x.target_speed for x in v])
''')

S("c14-long-paths", "C14", [(R, "            (node, path) = queue.pop(0)\n", "            (node, path) = queue.pop(0)\n            if len(path) > 12:\n                break\n")],
  "destinations more than a dozen roads away",
  "the search for a route gives up after twelve roads",
  '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
net = RoadNetwork()
for i in range(20):
    net.add_lane(str(i), str(i + 1), StraightLane([10 * i, 0], [10 * i + 10, 0]))
check(net.shortest_path("0", "20") == [str(i) for i in range(21)], net.shortest_path("0", "20"))
''')

S("c20-gap-of-base-class", "C20,C19", [(B, "        tau = self.TIME_WANTED\n        ab = -self.COMFORT_ACC_MAX", "        tau = IDMVehicle.TIME_WANTED\n        ab = -self.COMFORT_ACC_MAX")],
  "drivers with their own time headway (subclass or instance)",
  "the desired gap uses the time headway of the base class",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
class Calm(IDMVehicle):
    TIME_WANTED = 4.
road = Road(RoadNetwork.straight_road_network(2))
a, b = Calm(road, [0, 0], 0, 20), IDMVehicle(road, [50, 0], 0, 20)
check(abs(a.desired_gap(a, b) - (10 + 80)) < 1e-9, a.desired_gap(a, b))
''')

S("c20-timer-until-change", "C20", [(B, "        self.timer = 0\n\n        # decide", "        self.timer %= self.LANE_CHANGE_DELAY\n\n        # decide")],
  "a driver whose timer did not start on a multiple of the frame",
  "decisions are taken more often than once per decision period",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2))
v = IDMVehicle(road, [0, 0], 0, 20)
calls = []
v.mobil = lambda l: calls.append(v.timer) and False
road.vehicles.append(v)
v.timer = 1.9
v.act()
n = len(calls)
v.step(.2)
v.act()
check(len(calls) == n, "decided twice within .2 s")
''')

S("c22-first-conflict", "C22", [(REG, "                        yielding_vehicle.yield_timer = 0\n", "                        yielding_vehicle.yield_timer = 0\n                        if yielding_vehicle is self.vehicles[i]:\n                            break\n")],
  "a vehicle that must yield to one vehicle while another must yield to it",
  "only the conflicts up to the first one a vehicle has to yield in are resolved",
  '''
from highway_env.road.regulation import RegulatedRoad
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([-50, 0], [50, 0], priority=1))
net.add_lane("c", "d", StraightLane([0, -50], [0, 50], priority=2))
net.add_lane("e", "f", StraightLane([4, -50], [4, 50], priority=0))
road = RegulatedRoad(net)
m = ControlledVehicle(road, [-10, 0], 0, 8)
h = ControlledVehicle(road, [0, -10], np.pi / 2, 8)
l = ControlledVehicle(road, [4, -14], np.pi / 2, 8)
road.vehicles += [m, h, l]
check(road.is_conflict_possible(m, l) and road.is_conflict_possible(m, h) and m.lane_index[0] == "a", "bad scene")
road.enforce_road_rules()
check(m.target_speed == 0 and l.target_speed == 0 and h.target_speed == 8, [v.target_speed for v in road.vehicles])
''')

S("c25-achieved-of-first", "C25,C05", [(O, '            "achieved_goal": obs / self.scales,\n            "desired_goal": goal', '            "achieved_goal": np.ravel(pd.DataFrame.from_records([self.env.vehicle.to_dict()])[self.features]) / self.scales,\n            "desired_goal": goal')],
  "several agents in the parking lot",
  "every agent's achieved goal is that of the first agent",
  '''
from highway_env.envs.parking_env import ParkingEnv
env = ParkingEnv({"controlled_vehicles": 2, "action": {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}},
  "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'], "scales": [100, 100, 5, 5, 1, 1], "normalize": False}}})
obs = env.reset()
check(np.allclose(obs[1]["observation"], obs[1]["achieved_goal"]), obs[1])
''')

S("c26-spawn-over-wreck", "C26", [(IN, "        for v in self.road.vehicles:\n            if np.linalg.norm(v.position - vehicle.position) < 15:\n", "        for v in self.road.vehicles:\n            if not v.crashed and np.linalg.norm(v.position - vehicle.position) < 15:\n")],
  "a crashed vehicle standing at an entry when a new one is spawned",
  "vehicles are spawned on top of wrecks",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
from highway_env.vehicle.behavior import IDMVehicle
env = IntersectionEnv({"initial_vehicle_count": 0})
env.seed(0); env.reset()
env.road.vehicles = []
for i in range(4):
    v = IDMVehicle.make_on_lane(env.road, ("o%d" % i, "ir%d" % i, 0), 5, 0)
    v.crashed = True
    env.road.vehicles.append(v)
for _ in range(10):
    env._spawn_vehicle(spawn_probability=1)
check(len(env.road.vehicles) == 4, len(env.road.vehicles))
''')

S("c03-call-first-result", "C03", [(A, "                    env_copy.road.vehicles[i] = result\n", "                    env_copy.road.vehicles[i] = result\n                    if result is not v:\n                        break\n")],
  "a method that returns a new vehicle, on several vehicles",
  "only the first vehicle is replaced by the result of the method",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
env = HighwayEnv({"vehicles_count": 3})
env.seed(0); env.reset()
env = env.change_vehicles("highway_env.vehicle.uncertainty.estimation.MultipleModelVehicle")
for v in env.road.vehicles[1:]:
    v.plan_route_to("1")
    v.data = [(v.route, {})]
e = env.call_vehicle_method(("assume_model_is_valid", (0,)))
check(all(not isinstance(v, MultipleModelVehicle) or v is None or type(v) is not MultipleModelVehicle for v in e.road.vehicles[1:]), [type(v) for v in e.road.vehicles])
''')

S("c28-first-step-period", "C28", [(I, "        dx = self.a0 @ self.x_t + self.b @ self.u.squeeze(-1)\n", "        self._dt = dt = getattr(self, '_dt', dt)\n        dx = self.a0 @ self.x_t + self.b @ self.u.squeeze(-1)\n")],
  "a predictor stepped with different time steps",
  "the nominal state is always advanced by the first time step",
  '''
from highway_env.interval import LPV
lpv = LPV(x0=[1., 2.], a0=[[-1., 0.], [0., -1.]], da=[np.zeros((2, 2))])
lpv.step(.1); lpv.step(.2)
check(np.allclose(lpv.x_t, np.array([1., 2.]) * .9 * .8), lpv.x_t)
''')

S("c16-slow-heading", "C16", [(C, "np.clip(lateral_speed_command / utils.not_zero(self.speed), -1, 1)", "np.clip(lateral_speed_command / max(self.speed, 3), -1, 1)")],
  "a vehicle that manoeuvres below 3 m/s (or backwards)",
  "the heading command of slow vehicles is that of 3 m/s",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
road = Road(RoadNetwork.straight_road_network(2))
v = ControlledVehicle(road, [0, .02], 0, 1)
s = v.steering_control(("0", "1", 0))
hr = -5 / 3 * .02
e = 5 * np.arcsin(hr)
check(abs(s - max(-np.pi / 3, np.arcsin(np.clip(2.5 * e, -1, 1)))) < 1e-6, s)
''')

S("c16-next-lane-late", "C16,C17", [(C, "        if self.road.network.get_lane(self.target_lane_index).after_end(self.position):\n", "        if self.road.network.get_lane(self.target_lane_index).after_end(self.position) and self.speed > 0:\n")],
  "a vehicle that stops or rolls back at the very end of a lane",
  "a stopped vehicle does not continue on the next lane of its route",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [50, 0]))
net.add_lane("b", "c", StraightLane([50, 0], [100, 0]))
road = Road(net)
v = ControlledVehicle(road, [51, 0], 0, 0, target_lane_index=("a", "b", 0))
v.act()
check(v.target_lane_index == ("b", "c", 0), v.target_lane_index)
''')

S("c02-copy-lane-of-original", "C02,C03", [(A, "            if k not in ['viewer', 'automatic_rendering_callback']:\n                setattr(result, k, copy.deepcopy(v, memo))\n", "            if k in ['goal', 'lane', 'lanes', 'np_random'] and k != 'np_random':\n                setattr(result, k, v)\n            elif k not in ['viewer', 'automatic_rendering_callback']:\n                setattr(result, k, copy.deepcopy(v, memo))\n")],
  "a copy of a parking or lane keeping environment",
  "the goal and the remaining lanes are shared between the original and its copy",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv()
env.seed(0); env.reset()
e = copy.deepcopy(env)
check(e.lanes is not env.lanes, "shared")
e.lanes.pop(0)
check(len(env.lanes) == 1, env.lanes)
''')

S("c09-colour-of-hit-vehicle", "C09", [(VG, "elif isinstance(vehicle, LinearVehicle):", "elif isinstance(vehicle, LinearVehicle) and vehicle.target_speed > 0:")],
  "a linear driver that wants to stop",
  "stopped linear drivers are drawn in the colour of another kind of driver",
  '''
from highway_env.vehicle.graphics import VehicleGraphics
from highway_env.vehicle.behavior import LinearVehicle
from highway_env.road.road import Road, RoadNetwork
v = LinearVehicle(Road(RoadNetwork.straight_road_network(2)), [0, 0], 0, 0, target_speed=0)
check(VehicleGraphics.get_color(v) == VehicleGraphics.YELLOW, VehicleGraphics.get_color(v))
''')

S("c33-zero-noise-derivative", "C33", [(LK, '        return self.vehicle.derivative[[1, 2, 4, 5]] + \\\n', '        return (self.vehicle.derivative_linear if abs(self.vehicle.lateral_speed) > 2 else self.vehicle.derivative)[[1, 2, 4, 5]] + \\\n')],
  "a lateral speed above 2 m/s",
  "the linearised derivative is observed during strong slips",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv({"derivative_noise": 0})
env.seed(0); env.reset()
env.vehicle.lateral_speed = 3.
env.vehicle.yaw_rate = 1.
check(np.allclose(env.derivative, env.vehicle.derivative[[1, 2, 4, 5]]), env.derivative)
''')

S("c33-lanes-exhausted", "C33", [(LK, "        if self.lanes and not self.lane.on_lane(self.vehicle.position):\n", "        if self.lanes and not self.lane.on_lane(self.vehicle.position) and self.lanes[0].on_lane(self.vehicle.position):\n")],
  "a vehicle that leaves the first lane before the second one begins",
  "the current lane only changes once the vehicle is on the next one",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv()
env.seed(0); env.reset()
env.vehicle.position = np.array([125., 10.])
l = env.lanes[0]
check(not env.lane.on_lane(env.vehicle.position) and not l.on_lane(env.vehicle.position), "bad scene")
env.step(np.zeros((1,)))
check(env.lane is l, "kept the first lane")
''')

S("c10-object-order", "C10", [(R, "            for other in self.objects:\n                vehicle.check_collision(other)\n", "            for other in self.objects:\n                if not getattr(other, 'hit', False):\n                    vehicle.check_collision(other)\n")],
  "a second vehicle that runs into an obstacle already hit",
  "only the first vehicle to hit an obstacle crashes",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2))
road.objects.append(Obstacle(road, [50, 0]))
a, b = Vehicle(road, [49, 0], 0, 10), Vehicle(road, [0, 0], 0, 10)
road.vehicles += [a, b]
road.step(.1)
a.position[0] = 500.
b.position[0] = 49.
road.step(.1)
check(a.crashed and b.crashed, (a.crashed, b.crashed))
''')

S("c10-crash-while-yielding", "C10,C22", [(K, "            if self._is_colliding(other):\n                self.speed = other.speed = min([self.speed, other.speed], key=abs)\n", "            if (self.speed or other.speed) and self._is_colliding(other):\n                self.speed = other.speed = min([self.speed, other.speed], key=abs)\n")],
  "two vehicles that come to stand exactly in contact (or are placed so)",
  "two standing vehicles that overlap are not crashed",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2))
a, b = Vehicle(road, [0, 0], 0, 0), Vehicle(road, [3, 0], 0, 0)
road.vehicles += [a, b]
road.step(.1)
check(a.crashed and b.crashed, (a.crashed, b.crashed))
''')

S("c32-speed-of-target", "C32,C22", [(C, "coordinates[0] + self.speed * t, 0)", "coordinates[0] + (self.speed if self.speed > 0 else 0) * t, 0)")],
  "a vehicle that rolls backwards",
  "vehicles that move backwards are predicted to stand still",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
road = Road(RoadNetwork.straight_road_network(2))
v = ControlledVehicle(road, [50, 0], 0, -3)
p, h = v.predict_trajectory_constant_speed(np.array([1., 2.]))
check(abs(p[1][0] - 44) < 1e-9, p)
''')

S("c23-merge-standing", "C23", [(ME, "(vehicle.target_speed - vehicle.speed) / vehicle.target_speed", "max(vehicle.target_speed - vehicle.speed, 0) / vehicle.target_speed")],
  "a merging vehicle faster than its target speed",
  "merging vehicles faster than wanted no longer count negatively",
  '''
from highway_env.envs.merge_env import MergeEnv
from highway_env.vehicle.behavior import IDMVehicle
env = MergeEnv()
env.seed(0); env.reset()
r0 = env._reward(1)
v = IDMVehicle.make_on_lane(env.road, ("b", "c", 2), 20, 20)
v.target_speed = 10
check(v.lane_index == ("b", "c", 2), v.lane_index)
env.road.vehicles.append(v)
r1 = env._reward(1)
check(r1 > r0 + 1e-6, (r0, r1))
''')

S("c26-density-with-agents", "C26", [(HW, 'spacing=1 / self.config["vehicles_density"]', 'spacing=1 / max(self.config["vehicles_density"], 1)')],
  "a density below one",
  "densities below one are ignored",
  '''
from highway_env.envs.highway_env import HighwayEnv
def span(d):
    env = HighwayEnv({"vehicles_count": 10, "vehicles_density": d})
    env.seed(0); env.reset()
    x = [v.position[0] for v in env.road.vehicles]
    return max(x) - min(x)
check(span(.5) > 1.5 * span(1), (span(.5), span(1)))
''')

S("c26-incoming-destination-zero", "C26", [(RO, 'if self.config["incoming_vehicle_destination"] is not None:', 'if self.config["incoming_vehicle_destination"]:')],
  "the incoming vehicle configured to the first exit",
  "destination number zero is treated as unset",
  '''
from highway_env.envs.roundabout_env import RoundaboutEnv
env = RoundaboutEnv({"incoming_vehicle_destination": 0})
for s in range(20):
    env.seed(s); env.reset()
    check(env.road.vehicles[1].route[-1][1] == "exr", env.road.vehicles[1].route)
''')

S("c15-range-of-self-lane", "C15,C05", [(R, "        vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))\n", "        if len(vehicles) > (count or 0):\n            vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))\n")],
  "fewer vehicles nearby than requested",
  "the vehicles are not ordered when all of them fit",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2))
vs = [Vehicle(road, [x, 0], 0, 10) for x in (0, 60, 20)]
road.vehicles += vs
check(road.close_vehicles_to(vs[0], 100, count=4) == [vs[2], vs[1]], "unordered")
''')

S("c18-int-action", "C18", [(ACT, "            action = np.clip(action, -1, 1)\n", "            action = np.clip(action, -1, 1).astype(np.float16)\n")],
  "actions whose value needs more than half precision",
  "the actions are rounded to half precision",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "action": {"type": "ContinuousAction"}})
env.seed(0); env.reset()
env.action_type.act(np.array([.12345, .3]))
check(abs(env.vehicle.action["acceleration"] - .12345 * 5) < 1e-6, env.vehicle.action)
''')

S("c04-reset-spaces-once", "C04,C18", [(A, "        self.define_spaces()  # First, to set the controlled vehicle class depending on action space\n", "        if self.action_type is None:\n            self.define_spaces()  # First, to set the controlled vehicle class depending on action space\n")],
  "an environment reconfigured to another action type before a reset",
  "the ego vehicle is still of the class of the previous action type",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "action": {"type": "ContinuousAction"}})
env.configure({"action": {"type": "DiscreteMetaAction"}})
env.reset()
env.step(env.action_space.sample())
check(hasattr(env.vehicle, "speed_index"), type(env.vehicle))
''')

S("c24-manual-duration", "C24,C31", [(A, "        self.steps += 1\n        self._simulate(action)\n", "        self.steps += 0 if action is None else 1\n        self._simulate(action)\n")],
  "steps without an action",
  "steps without an action do not count",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 0, "duration": 2})
env.seed(0); env.reset()
d = [env.step(None)[2] for _ in range(2)]
check(d == [False, True], d)
''')

S("c05-shuffle-all", "C05", [(O, "            self.env.np_random.shuffle(obs[1:])\n", "            self.env.np_random.shuffle(obs[1:len(close_vehicles) + 1])\n            if len(close_vehicles) > 1:\n                obs[1] = obs[min(len(close_vehicles), self.vehicles_count - 1)]\n")],
  "a shuffled observation of at least two others",
  "in shuffled observations one vehicle is listed twice and another not at all",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 10, "observation": {"type": "Kinematics", "order": "shuffled", "features": ["presence", "x", "y"]}})
env.seed(0); obs = env.reset()
rows = {tuple(r) for r in obs}
check(len(rows) == 5, obs)
''')

# ---- seventh batch: functions no earlier change touches
S("c07-slower-wraps", "C07", [(MDP, "    h = np.clip(h, 0, grid.shape[0] - 1)\n", "    h = h % grid.shape[0]\n")],
  "slowing down at the lowest speed, or accelerating at the highest, in the finite MDP",
  "the speed index wraps around",
  '''
from highway_env.envs.common.finite_mdp import clip_position
grid = np.zeros((3, 4, 5))
check(clip_position(np.array([-1]), np.array([1]), np.array([2]), grid)[0] == np.ravel_multi_index((0, 1, 2), grid.shape), "wraps")
''')

S("c23-lane-left-sideways", "C23,C33", [(LK, "if self.lanes and not self.lane.on_lane(self.vehicle.position):", "if self.lanes and self.lane.after_end(self.vehicle.position):")],
  "a vehicle that leaves the first lane over its side",
  "the lane to keep is replaced only past its end, and already before its end is passed",
  '''
from highway_env.envs.lane_keeping_env import LaneKeepingEnv
env = LaneKeepingEnv()
env.seed(0); env.reset()
env.vehicle.position = env.lane.position(30, 8)
env.step(np.array([0.]))
check(type(env.lane).__name__ == "SineLane", env.lane)
''')

S("c23-merge-ego-exempt", "C23", [(ME, 'if vehicle.lane_index == ("b", "c", 2) and isinstance(vehicle, ControlledVehicle):', 'if vehicle.lane_index == ("b", "c", 2) and isinstance(vehicle, ControlledVehicle) and vehicle is not self.vehicle:')],
  "the ego vehicle itself on the merging lane",
  "the ego vehicle is not penalised for being slow on the merging lane",
  '''
from highway_env.envs.merge_env import MergeEnv
env = MergeEnv()
env.seed(0); env.reset()
lane = env.road.network.get_lane(("b", "c", 2))
env.vehicle.position = lane.position(30, 0)
env.vehicle.on_state_update() if hasattr(env.vehicle, "on_state_update") else None
check(env.vehicle.lane_index == ("b", "c", 2), env.vehicle.lane_index)
env.vehicle.speed, env.vehicle.target_speed = 30, 30
a = env._reward(1)
env.vehicle.speed = 10
b = env._reward(1)
check(a - b > .1, (a, b))
''')

S("c24-merge-off-road-end", "C24", [(ME, "return self.vehicle.crashed or self.vehicle.position[0] > 370", "return self.vehicle.crashed or (self.vehicle.on_road and self.vehicle.position[0] > 370)")],
  "a vehicle that passes the end of the ramp beside the road",
  "off the road the episode does not end past the ramp",
  '''
from highway_env.envs.merge_env import MergeEnv
env = MergeEnv({"action": {"type": "ContinuousAction"}, "observation": {"type": "Kinematics"}})
env.seed(0); env.reset()
env.vehicle.position = np.array([380., -30.])
env.vehicle.on_state_update()
check(env._is_terminal(), "not terminal")
''')

S("c27-certain-negative-part", "C27", [(I, "    return np.minimum(a, 0)\n", "    return np.minimum(a, 0) if np.any(np.diff(a, axis=0)) else np.zeros(np.shape(a))\n")],
  "a degenerate interval below zero",
  "the negative part of a certain value is zero",
  '''
from highway_env.interval import interval_negative_part
check(np.allclose(interval_negative_part(np.array([-2., -2.])), -2), "lost")
''')

S("c27-local-corner-missing", "C27", [(I, "                     [longitudinal_i[1], lateral_i[0]],\n                     [longitudinal_i[1], lateral_i[1]]]\n    corners_absolute", "                     [longitudinal_i[1], lateral_i[0]]]\n    corners_absolute")],
  "a lane whose direction makes the last corner extreme",
  "one corner of the box is not converted",
  '''
from highway_env.interval import interval_local_to_absolute
from highway_env.road.lane import StraightLane
lane = StraightLane([0, 0], [100, 0])
p = interval_local_to_absolute(np.array([0, 10]), np.array([-1, 1]), lane)
lane2 = StraightLane([0, 0], [70, -70])
p2 = interval_local_to_absolute(np.array([0, 10]), np.array([-1, 1]), lane2)
c = np.array([lane2.position(s, r) for s in (0, 10) for r in (-1, 1)])
check((p2[0] <= c.min(axis=0) + 1e-9).all() and (p2[1] >= c.max(axis=0) - 1e-9).all(), (p2, c))
''')

S("c28-naive-disturbance", "C28", [(I, "dx_i = intervals_product(a_i, x_i) + intervals_product([d, d], omega_i) + np.array([bu, bu])", "dx_i = intervals_product(a_i, x_i) + np.array([d @ omega_i[0], d @ omega_i[1]]) + np.array([bu, bu])")],
  "dynamics without real eigenvectors and a negative disturbance gain",
  "the bounds of the disturbance are swapped",
  '''
from highway_env.interval import LPV
lpv = LPV(np.array([0., 0.]), np.array([[0., 1.], [-1., 0.]]), [], d=np.array([[-1.], [0.]]), omega_i=np.array([[-1.], [2.]]))
lpv.step(.1)
lo, hi = lpv.x_i_t
check((lo <= hi).all() and abs(lo[0] + .2) < 1e-9 and abs(hi[0] - .1) < 1e-9, lpv.x_i_t)
''')

S("c30-valid-with-largest", "C30", [(U, "error_bound = np.sqrt(np.amax(eig_phi) / np.amin(eig_g)) * beta + sigma", "error_bound = np.sqrt(np.amax(eig_phi) / np.amax(eig_g)) * beta + sigma")],
  "data that excite one direction much less than another",
  "observations the confidence region explains are judged inconsistent",
  '''
from highway_env.utils import is_consistent_dataset
data = {"features": [np.array([1., 0.])] * 50 + [np.array([0., 2.])], "outputs": [.3] * 50 + [1.]}
check(is_consistent_dataset(data, np.array([[-1, -1], [1, 1]])), "inconsistent")
''')

S("c30-consistency-eats-data", "C30,C21", [(U, "    train_set = copy.deepcopy(data)\n", "    train_set = dict(data)\n")],
  "any consistency check of a data set that is used again",
  "the check removes the last sample from the caller's data",
  '''
from highway_env.utils import is_consistent_dataset
data = {"features": [np.array([1., 0.])] * 5, "outputs": [.3] * 5}
is_consistent_dataset(data, np.array([[-1, -1], [1, 1]]))
check(len(data["features"]) == 5 and len(data["outputs"]) == 5, data)
''')

S("c30-fork-of-three", "C30,C03", [(C, "            if len(next_destinations) >= 2:\n", "            if len(next_destinations) > 2:\n")],
  "a fork with exactly two exits",
  "two-way forks are not seen as intersections",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [50, 0]))
net.add_lane("b", "c", StraightLane([50, 0], [100, 20]))
net.add_lane("b", "d", StraightLane([50, 0], [100, -20]))
road = Road(net)
v = ControlledVehicle(road, [10, 0], 0, 10, route=[("a", "b", 0)])
check(len(v.get_routes_at_intersection()) == 2, v.get_routes_at_intersection())
''')

S("c23-continuous-speed-floor", "C23,C07", [(C, "        x = (speed - cls.SPEED_MIN) / (cls.SPEED_MAX - cls.SPEED_MIN)\n        return np.int(np.clip(np.round(x", "        x = (speed - cls.SPEED_MIN) / (cls.SPEED_MAX - cls.SPEED_MIN)\n        return np.int(np.clip(np.floor(x")],
  "an ego vehicle without discrete speeds, closer to the next speed above",
  "its speed is counted as the lower of the two speeds",
  '''
from highway_env.vehicle.controller import MDPVehicle
check(MDPVehicle.speed_to_index_default(24) == 1 and MDPVehicle.speed_to_index_default(29) == 2, "floor")
''')

S("c17-integer-speeds", "C17", [(C, "            return self.SPEED_MIN + index * (self.SPEED_MAX - self.SPEED_MIN) / (self.SPEED_COUNT - 1)\n", "            return self.SPEED_MIN + index * (self.SPEED_MAX - self.SPEED_MIN) // (self.SPEED_COUNT - 1)\n")],
  "a speed set whose members are not integers",
  "the speeds are truncated to integers",
  '''
from highway_env.envs.intersection_env import IntersectionEnv
env = IntersectionEnv()
env.seed(0); env.reset()
check(env.vehicle.index_to_speed(1) == 4.5, env.vehicle.index_to_speed(1))
''')

S("c20-timer-debt", "C20", [(B, "        self.timer = 0\n\n        # decide to make a lane change", "        self.timer -= self.LANE_CHANGE_DELAY\n\n        # decide to make a lane change")],
  "a driver whose timer went far beyond a period during a long lane change",
  "several lane-change decisions are taken in consecutive steps",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(3))
v = IDMVehicle(road, [0, 0], 0, 20, target_speed=20, timer=5.)
road.vehicles.append(v)
v.act()
check(v.timer < 1, v.timer)
''')

S("c20-abort-other-road", "C20", [(B, "                            and v.lane_index != self.target_lane_index \\\n", "                            and v.lane_index[2] != self.target_lane_index[2] \\\n")],
  "a vehicle that joins the same lane from another road with the same lane number",
  "the lane change is not given up for it",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.behavior import IDMVehicle
net = RoadNetwork()
for k in range(2):
    net.add_lane("a", "b", StraightLane([0, 4 * k], [300, 4 * k]))
net.add_lane("c", "d", StraightLane([0, 8], [300, 8]))
net.add_lane("c", "d", StraightLane([0, 12], [300, 12]))
road = Road(net)
v = IDMVehicle(road, [50, 0], 0, 20, target_lane_index=("a", "b", 1))
o = IDMVehicle(road, [60, 12], 0, 20, target_lane_index=("a", "b", 1))
check(o.lane_index == ("c", "d", 1), o.lane_index)
road.vehicles += [v, o]
v.change_lane_policy()
check(v.target_lane_index == ("a", "b", 0), v.target_lane_index)
''')

S("c20-gap-seen-from-self", "C20,C19", [(B, "            d = ego_vehicle.lane_distance_to(front_vehicle)\n            acceleration -=", "            d = self.lane_distance_to(front_vehicle) - self.lane_distance_to(ego_vehicle)\n            acceleration -=")],
  "a follower on a curved lane or another road than the driver who decides",
  "the gap of the new follower is measured along the decider's lane",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane, CircularLane
from highway_env.vehicle.behavior import IDMVehicle
net = RoadNetwork()
net.add_lane("a", "b", CircularLane([0, 0], 30, 0, np.pi))
net.add_lane("a", "b", CircularLane([0, 0], 26, 0, np.pi))
net.add_lane("c", "d", StraightLane([40, -50], [40, 50]))
road = Road(net)
l = net.get_lane(("a", "b", 0))
ego = IDMVehicle(road, l.position(10, 0), l.heading_at(10), 10)
front = IDMVehicle(road, l.position(60, 0), l.heading_at(60), 10)
other = IDMVehicle(road, [40, 0], np.pi / 2, 10)
check(abs(other.acceleration(ego, front) - ego.acceleration(ego, front)) < 1e-9, (other.acceleration(ego, front), ego.acceleration(ego, front)))
''')

S("c03-field-on-class", "C03,C02,C01", [(A, "            if v is not env_copy.vehicle:\n                setattr(v, field, value)\n", "            if v is not env_copy.vehicle:\n                setattr(v if field in vars(v) else type(v), field, value)\n")],
  "setting a field the vehicles only have through their class",
  "the field of every vehicle of the class is set, those of the original too",
  '''
from highway_env.envs.highway_env import HighwayEnv
from highway_env.vehicle.behavior import IDMVehicle
env = HighwayEnv({"vehicles_count": 3})
env.seed(0); env.reset()
before = IDMVehicle.TIME_WANTED
e2 = env.set_vehicle_field(("TIME_WANTED", 9.))
check(IDMVehicle.TIME_WANTED == before and env.road.vehicles[1].TIME_WANTED == before, "class changed")
check(e2.road.vehicles[1].TIME_WANTED == 9., "not set")
''')

S("c24-wrapper-dones", "C24,C04", [(A, '        done = info["agents_dones"]\n', '        done = tuple(done for _ in info["agents_dones"])\n')],
  "one agent done before the others",
  "the tuple environment reports the joint terminal flag for every agent",
  '''
from highway_env.envs.intersection_env import TupleMultiAgentIntersectionEnv
env = TupleMultiAgentIntersectionEnv()
env.seed(0); env.reset()
v = env.unwrapped.controlled_vehicles[0]
lane = env.unwrapped.road.network.get_lane(("il1", "o1", 0))
v.position, v.heading = lane.position(40, 0), lane.heading_at(40)
v.on_state_update()
v.target_lane_index, v.route = ("il1", "o1", 0), [("il1", "o1", 0)]
_, _, done, info = env.step((1, 1))
check(tuple(done) == tuple(info["agents_dones"]) and done[0] != done[1], (done, info["agents_dones"]))
''')

S("c05-gap-on-others-lane", "C15,C05,C19", [(K, "            lane = self.lane\n        return lane.local_coordinates(vehicle.position)[0]", "            lane = self.lane if self.lane.on_lane(vehicle.position) or not getattr(vehicle, \"lane\", None) else vehicle.lane\n        return lane.local_coordinates(vehicle.position)[0]")],
  "a vehicle on another lane that is not parallel",
  "the distance is measured along the other vehicle's lane",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.kinematics import Vehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0]))
net.add_lane("c", "d", StraightLane([50, -50], [50, 50]))
road = Road(net)
a, b = Vehicle(road, [10, 0], 0, 5), Vehicle(road, [50, -30], np.pi / 2, 5)
check(abs(a.lane_distance_to(b) - 40) < 1e-9, a.lane_distance_to(b))
''')

S("c26-heading-of-start", "C26,C13", [(K, "        return cls(road, lane.position(longitudinal, 0), lane.heading_at(longitudinal), speed)", "        return cls(road, lane.position(longitudinal, 0), lane.heading_at(0), speed)")],
  "a vehicle placed along a curved lane",
  "it has the heading of the lane's start",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import CircularLane
from highway_env.vehicle.kinematics import Vehicle
net = RoadNetwork()
net.add_lane("a", "b", CircularLane([0, 0], 30, 0, np.pi))
v = Vehicle.make_on_lane(Road(net), ("a", "b", 0), 40, 5)
check(abs(v.heading - net.get_lane(("a", "b", 0)).heading_at(40)) < 1e-9, v.heading)
''')

S("c13-reach-behind-start", "C13,C17", [(L, "        is_close = np.abs(lateral) <= 2 * self.width_at(longitudinal) and \\\n            0 <= longitudinal < self.length + self.VEHICLE_LENGTH\n", "        is_close = np.abs(lateral) <= 2 * self.width_at(longitudinal) and \\\n            -self.VEHICLE_LENGTH <= longitudinal < self.length + self.VEHICLE_LENGTH\n")],
  "a position within a vehicle length before the start of a lane",
  "the lane can be reached from there",
  '''
from highway_env.road.lane import StraightLane
l = StraightLane([0, 0], [50, 0])
check(not l.is_reachable_from(np.array([-3., 2.])) and l.is_reachable_from(np.array([3., 2.])), "reachable")
''')

S("c13-end-of-short-lane", "C13", [(L, "        return longitudinal > self.length - self.VEHICLE_LENGTH / 2\n", "        return longitudinal > max(self.length - self.VEHICLE_LENGTH / 2, self.VEHICLE_LENGTH)\n")],
  "a lane shorter than one and a half vehicles",
  "the end of a short lane is passed too late",
  '''
from highway_env.road.lane import StraightLane
l = StraightLane([0, 0], [6, 0])
check(l.after_end(np.array([4., 0.])), "not after end")
''')

S("c13-distance-before-start", "C13,C14", [(L, "        return abs(r) + max(s - self.length, 0) + max(0 - s, 0)\n", "        return abs(r) + max(s - self.length, -s, -self.VEHICLE_LENGTH)\n")],
  "positions along the lane",
  "positions inside the lane have a negative distance",
  '''
from highway_env.road.lane import StraightLane
l = StraightLane([0, 0], [60, 0])
check(abs(l.distance(np.array([30., 2.])) - 2) < 1e-9, l.distance(np.array([30., 2.])))
''')

S("c12-side-slip-heading", "C12", [(D, "        c, s = np.cos(self.heading), np.sin(self.heading)\n        R = np.array(((c, -s), (s, c)))\n        speed = R @ np.array([self.speed, self.lateral_speed])\n        return np.array([[speed[0]], [speed[1]]", "        c, s = np.cos(self.heading), np.sin(self.heading)\n        R = np.array(((c, s), (s, c)))\n        speed = R @ np.array([self.speed, self.lateral_speed])\n        return np.array([[speed[0]], [speed[1]]")],
  "the linearised derivative of a slipping vehicle that is not aligned with the axes",
  "the lateral speed moves the vehicle to the wrong side along x",
  '''
from highway_env.vehicle.dynamics import BicycleVehicle
v = BicycleVehicle(None, [0, 0], .7, 8)
v.lateral_speed = 1.
check(np.allclose(v.derivative_linear[:2], v.derivative[:2]), (v.derivative_linear, v.derivative))
''')

S("c29-right-lane-unreachable", "C29", [(P, '            lanes = self.road.network.side_lanes(self.target_lane_index) + [self.target_lane_index]\n', '            lanes = [l for l in self.road.network.side_lanes(self.target_lane_index)\n                     if self.road.network.get_lane(l).is_reachable_from(self.interval.position[0])] + [self.target_lane_index]\n')],
  "an interval whose lower corner is far from a side lane",
  "lane changes that are possible from the rest of the interval are not considered",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
road = Road(RoadNetwork.straight_road_network(3))
v = IntervalVehicle(road, [50, 4], 0, 20)
v.interval.position[0] = [-10, 2]
check(len(v.get_followed_lanes("all")) == 3, v.get_followed_lanes("all"))
''')

S("c09-stripes-last", "C09", [(RG, "        ends = longitudinal + np.arange(stripes_count) * cls.STRIPE_SPACING + cls.STRIPE_LENGTH\n        lats", "        ends = longitudinal + np.arange(stripes_count) * cls.STRIPE_SPACING + cls.STRIPE_SPACING\n        lats")],
  "striped lane lines",
  "striped lines are drawn as continuous ones",
  '''
import os
os.environ["SDL_VIDEODRIVER"] = "dummy"
import pygame
from highway_env.road.lane import StraightLane, LineType
from highway_env.road.graphics import LaneGraphics, WorldSurface
pygame.init()
s = WorldSurface((600, 100), 0, pygame.Surface((600, 100)))
s.fill(s.GREY)
s.move_display_window_to(np.array([50, 0]))
LaneGraphics.display(StraightLane([0, 0], [100, 0], line_types=[LineType.STRIPED, LineType.NONE]), s)
y = s.vec2pix([50, -2])[1]
on = [tuple(s.get_at((x, y)))[:3] == s.WHITE for x in range(*[s.vec2pix([a, 0])[0] for a in (20, 60)])]
check(.4 < np.mean(on) < .8, np.mean(on))
''')

S("c09-zoom-origin", "C09", [(RG, "        return self.pix(x - self.origin[0]), self.pix(y - self.origin[1])\n", "        return self.pix(x) - self.pix(self.origin[0]), self.pix(y) - self.pix(self.origin[1])\n")],
  "window origins that are not a whole number of pixels",
  "rounding each coordinate separately shifts what is drawn by a pixel",
  '''
import os
os.environ["SDL_VIDEODRIVER"] = "dummy"
import pygame
from highway_env.road.graphics import WorldSurface
pygame.init()
s = WorldSurface((600, 100), 0, pygame.Surface((600, 100)))
s.scaling, s.origin = 5.5, np.array([10.1, 3.1])
check(all(s.pos2pix(x, 5)[0] == int((x - 10.1) * 5.5) for x in np.linspace(11, 100, 50)), "shift")
''')

S("c09-history-after-crash", "C09", [(K, "            if self.road.record_history:\n                self.history.appendleft(self.create_from(self))", "            if self.road.record_history and not self.crashed:\n                self.history.appendleft(self.create_from(self))")],
  "recorded histories of crashed vehicles",
  "crashed vehicles stop recording, their trail no longer shows their latest positions",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2), record_history=True)
v = Vehicle(road, [0, 0], 0, 20)
road.vehicles.append(v)
v.crashed = True
for _ in range(3):
    road.act(); road.step(.1)
check(len(v.history) == 3, len(v.history))
''')

S("c23-two-way-lanes", "C23", [(TW, "        neighbours = self.road.network.all_side_lanes(self.vehicle.lane_index)\n", "        neighbours = self.road.network.all_side_lanes((\"a\", \"b\", 0))\n")],
  "the ego vehicle over the oncoming road",
  "the number of lanes is always that of the ego's own direction",
  '''
from highway_env.envs.two_way_env import TwoWayEnv
env = TwoWayEnv({"action": {"type": "ContinuousAction"}, "observation": {"type": "Kinematics"}})
env.seed(0); env.reset()
env.vehicle.position, env.vehicle.heading = np.array([300., 0.]), np.pi
env.vehicle.on_state_update()
check(env.vehicle.lane_index == ("b", "a", 0), env.vehicle.lane_index)
check(abs(env._reward(None) - env.HIGH_SPEED_REWARD * 1.0 * (0 if env.vehicle.speed < 25 else 1)) < 1e-6, env._reward(None))
''')

S("c26-two-way-spacing", "C26", [(TW, ".position(200+100*i + 10*self.np_random.randn(), 0),", ".position(200+10*i + 10*self.np_random.randn(), 0),")],
  "the two oncoming vehicles",
  "oncoming vehicles start on top of each other",
  '''
from highway_env.envs.two_way_env import TwoWayEnv
env = TwoWayEnv()
for s in range(20):
    env.seed(s); env.reset()
    o = [v for v in env.road.vehicles if v.lane_index[:2] == ("b", "a")]
    check(len(o) == 2 and abs(o[0].position[0] - o[1].position[0]) > 20, [v.position for v in o])
''')

S("c20-copy-keeps-lane-changes", "C20,C03", [(B, "                route=getattr(vehicle, 'route', None), timer=getattr(vehicle, 'timer', None))\n        return v\n\n    def act(", "                route=getattr(vehicle, 'route', None), timer=getattr(vehicle, 'timer', None))\n        v.road = vehicle.road\n        v.route = None if v.route and len(v.route) > 4 else v.route\n        return v\n\n    def act(")],
  "vehicles with a long planned route whose behaviour model is changed",
  "long routes are lost when the behaviour model is changed",
  '''
from highway_env.envs.roundabout_env import RoundaboutEnv
env = RoundaboutEnv()
env.seed(0); env.reset()
e2 = env.change_vehicles("highway_env.vehicle.behavior.DefensiveVehicle")
check([list(map(tuple, v.route)) for v in env.road.vehicles] == [list(map(tuple, v.route or [])) for v in e2.road.vehicles], "routes")
''')

S("c19-standing-target", "C19", [(U, "    elif x > 0:\n        return eps\n", "    elif x >= 0:\n        return eps\n")],
  "an exactly zero target speed or gap",
  "an exact zero counts as slightly positive",
  '''
from highway_env.utils import not_zero
check(not_zero(0.) == -1e-2, not_zero(0.))
''')

S("c16-wrap-negative", "C16,C11,C13", [(U, "    return ((x + np.pi) % (2 * np.pi)) - np.pi\n", "    return np.fmod(x + np.pi, 2 * np.pi) - np.pi\n")],
  "angles below minus pi",
  "angles below minus pi are wrapped to below minus pi",
  '''
from highway_env.utils import wrap_to_pi
check(abs(wrap_to_pi(-4.) - (2 * np.pi - 4)) < 1e-9, wrap_to_pi(-4.))
''')

S("c26-challenger-from-ego", "C26", [(IN, "            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_lane.speed_limit)\n", "            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_vehicle.SPEED_MIN if ego_id else ego_lane.speed_limit)\n")],
  "more than one controlled vehicle at the intersection",
  "every agent but the first starts with the lowest target speed",
  '''
from highway_env.envs.intersection_env import MultiAgentIntersectionEnv
env = MultiAgentIntersectionEnv()
env.seed(0); env.reset()
check(len({v.speed_index for v in env.controlled_vehicles}) == 1, [v.speed_index for v in env.controlled_vehicles])
''')

S("c06-normalize-open-range", "C05", [(O, "        for feature, f_range in self.features_range.items():\n            if feature in df:\n                df[feature] = utils.lmap(df[feature], [f_range[0], f_range[1]], [-1, 1])\n                if self.clip", "        for feature, f_range in self.features_range.items():\n            if feature in df:\n                df[feature] = utils.lmap(df[feature], [-f_range[1], f_range[1]], [-1, 1])\n                if self.clip")],
  "a feature range that is not symmetric",
  "asymmetric ranges are taken as symmetric",
  '''
from highway_env.envs.highway_env import HighwayEnv
for t in ("Kinematics",):
    env = HighwayEnv({"vehicles_count": 5, "observation": {"type": t, "features": ["presence", "vx"], "features_range": {"vx": [0, 40]}, "absolute": True, "normalize": True}})
    env.seed(0)
    obs = env.reset()
    if t == "Kinematics":
        check(abs(obs[0, 1] - (env.vehicle.speed / 40 * 2 - 1)) < 1e-6, obs[0])
''')

S("c20-wreck-decides", "C20", [(B, "        if self.crashed:\n            return\n        action = {}", "        if self.crashed and self.speed == 0:\n            return\n        action = {}")],
  "a crashed driver still rolling at a decision instant, with a better lane beside it",
  "a wreck that has not come to a stop goes on taking lane-change decisions",
  '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
v = IDMVehicle(road, [0, 0], 0, 20, target_speed=30, timer=5)
slow = Vehicle(road, [30, 0], 0, 5)
road.vehicles += [v, slow]
v.crashed = True
t = v.target_lane_index
road.act()
check(v.target_lane_index == t, v.target_lane_index)
''')

S("c18-clipped-in-place", "C18", [("envs/common/action.py", "            action = np.clip(action, -1, 1)\n", "            action = np.clip(action, -1, 1, out=np.asarray(action))\n")],
  "actions out of range given as arrays the caller uses again",
  "clipping alters the caller's action",
  '''
from highway_env.envs.highway_env import HighwayEnv
env = HighwayEnv({"vehicles_count": 2, "action": {"type": "ContinuousAction"}})
env.seed(0)
env.reset()
a = np.array([.5, -3.])
env.step(a)
check(a[1] == -3., a)
''')
