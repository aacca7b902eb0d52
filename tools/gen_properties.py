"""Writes /verif/properties.jsonl (kept as code so that the lines stay readable)."""
import json, os

P = []


def prop(id_, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id_, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": hook}})


H = "highway_env/"
prop("C01", "Episodes are reproducible from configuration, seed and actions",
     "Two runs of the same environment with the same configuration, the same seed and the same action sequence produce "
     "identical observations, rewards, terminal flags, infos and vehicle states. This does not depend on the process "
     "(including its string-hash seed), on other environments created, run or interleaved in that process, or on "
     "episodes this environment played before being re-seeded and reset.",
     ["histories", "configurations", "inputs"],
     "every registered environment and configuration, every seed and action sequence, every interleaving with other environments in the same process",
     "tests run each environment alone, once, in one process with a fixed hash seed, and compare nothing between runs",
     [H + "envs/common/abstract.py", H + "envs/roundabout_env.py", H + "envs/intersection_env.py", H + "road/road.py", H + "vehicle/kinematics.py"],
     [("per-environment random generator handed to the road and vehicles", "AbstractEnv.seed, Road.__init__"),
      ("scene rebuilt on reset", "AbstractEnv.reset/_reset of each environment"),
      ("breadth-first route search", "RoadNetwork.bfs_paths")],
     ["return values of env.reset / env.step", "positions, speeds, headings, lanes, crash flags of road.vehicles after each step"],
     [("np_random", "the environment's random generator", "AbstractEnv.np_random / Road.np_random")])

prop("C02", "Environment copies are faithful and independent",
     "A deep copy of an environment taken at any point of an episode evolves, under the same actions, exactly as the "
     "original would. Stepping, resetting or editing either of the two never changes the other, and each copy's own agents, observers and "
     "roads refer only to objects of that copy.",
     ["histories", "configurations"],
     "every registered environment, every point of an episode, every interleaving of operations on the original and its copies",
     "tests copy an environment once, just after reset, and only look at the type of what comes back",
     [H + "envs/common/abstract.py", H + "envs/common/observation.py", H + "envs/common/action.py"],
     [("deep copy without the viewer", "AbstractEnv.__deepcopy__"), ("observer / controlled vehicle references", "ObservationType, ActionType")],
     ["snapshots and rollouts of the original and of its copies"])

prop("C03", "Scenario transformations edit a copy, and only as documented",
     "Simplifying, changing other vehicles' behaviour model, setting a field of the other vehicles, setting routes at the next "
     "intersection, setting a preferred lane, calling a vehicle method and randomising behaviours each return a new environment and leave the "
     "original unchanged. In the result exactly the documented edit is visible: simplification keeps the ego vehicle and exactly the "
     "vehicles within perception distance, a behaviour change converts every non-ego vehicle to the requested model with its position, heading, "
     "speed, target lane, target speed, route and decision timer preserved, and a field assignment reaches every non-ego vehicle and not the ego vehicle. "
     "The ego vehicle is preserved in all of these and the result can still be stepped.",
     ["histories", "configurations", "inputs"],
     "every environment, every point of an episode, every transformation and argument, and compositions of them",
     "tests apply each transformation once to a freshly reset highway and inspect a single attribute",
     [H + "envs/common/abstract.py", H + "vehicle/controller.py", H + "vehicle/behavior.py"],
     [("preprocessors", "AbstractEnv.simplify/change_vehicles/set_preferred_lane/set_route_at_intersection/set_vehicle_field/call_vehicle_method/randomize_behaviour"),
      ("conversion between vehicle types", "Vehicle.create_from and overrides")],
     ["snapshots of the original before and after", "state of the returned environment"])

prop("C04", "Observations and actions always conform to the declared spaces",
     "For every registered environment and every supported observation and action configuration, the environment can be "
     "created, reset and stepped with any action of its action space without an error, for as long as the episode lasts. Every "
     "observation it returns belongs to the observation space it declares, with the same shape at every step, and multi-agent environments return "
     "and accept exactly one entry per controlled vehicle. Invalid type names are rejected.",
     ["configurations", "inputs", "histories"],
     "every registered environment, observation type and parameters, action type and parameters, seed and action sequence",
     "tests step each environment once or twice with its default configuration and one sampled action",
     [H + "envs/common/observation.py", H + "envs/common/action.py", H + "envs/common/abstract.py", H + "envs/intersection_env.py"],
     [("spaces derived from the configured types", "AbstractEnv.define_spaces, observation_factory, action_factory"),
      ("tuple wrapper for agents' rewards", "MultiAgentWrapper")],
     ["observation_space.contains(obs) after reset and every step", "exceptions raised by make/reset/step"])

prop("C05", "Kinematics observations list the ego and its nearest vehicles correctly",
     "A kinematics observation has one row per slot: the observing vehicle first with its own absolute values, then the other vehicles within "
     "perception distance in increasing order of longitudinal distance along the observer's lane (randomly permuted when order is shuffled, "
     "and limited to vehicles ahead, up to two vehicle lengths behind, unless seeing behind is enabled), then all-zero rows. Each feature is that vehicle's true value, "
     "relative to the observer for positions and velocities unless absolute coordinates are configured, mapped linearly from its configured or documented default range (fixed by the first observation of the environment) to [-1, 1] and clipped if so "
     "configured; destination features of other vehicles are zero unless intentions are observed. In multi-agent settings each agent's entry is the "
     "observation made from that agent's vehicle.",
     ["inputs", "configurations", "histories"],
     "all traffic scenes, feature lists, counts, ranges, orders, reference frames and observers",
     "tests only check that the observation has the right shape on default scenes",
     [H + "envs/common/observation.py", H + "road/road.py", H + "vehicle/kinematics.py"],
     [("row selection", "KinematicObservation.observe, Road.close_vehicles_to"), ("feature values", "Vehicle.to_dict"), ("normalisation", "KinematicObservation.normalize_obs, utils.lmap")],
     ["the observation array against the vehicles of the road"])

prop("C06", "Occupancy grids place every nearby vehicle in its true cell",
     "An occupancy grid observation has one layer per feature over a grid of cells of the configured size and step centred on the observing vehicle, and its "
     "shape is the number of features by the number of cells along each axis (lateral first, then longitudinal). A cell containing exactly one vehicle holds that vehicle's "
     "normalised feature values relative to the observer, clipped to [-1, 1]; a cell containing several holds those of one of them; a cell containing none holds zero; vehicles "
     "outside the grid appear nowhere.",
     ["inputs", "configurations"],
     "all traffic scenes, grid sizes and steps (including rectangular grids), features, ranges and observers",
     "no test uses an occupancy grid",
     [H + "envs/common/observation.py"],
     [("cell assignment and normalisation", "OccupancyGridObservation.observe/normalize")],
     ["the observation array against the vehicles of the road"])

prop("C07", "Time-to-collision grids and the finite MDP match constant-speed predictions",
     "The time-to-collision grid marks, for each speed the observer may choose (speeds outside its set are shown as the nearest one), each lane of its road and each time bin, 1 where a vehicle it would meet when everyone keeps constant speed overlaps its centre and at least 0.5 where "
     "the two bodies would start or stop touching (time rounded both ways), and 0 elsewhere, from the point of view of the observing vehicle. The observation is the 3-lane by 3-speed window of that grid around the observer, with lanes outside the road marked 1. "
     "The finite decision process built from it has the observer's cell as initial state, moves one lane or one speed step (speed only at the first time bin) per action while advancing time by one and clipping at the borders, rewards each state by collision, lane and speed terms plus the lane-change term of the action, "
     "and is terminal exactly at certain collisions and at the end of the horizon.",
     ["inputs", "configurations"],
     "all traffic scenes on one-road and multi-road networks, horizons, quantisations, observers, speeds and lanes",
     "tests check only the shape of one observation; the finite MDP conversion needs a package that is absent and is never run",
     [H + "envs/common/finite_mdp.py", H + "envs/common/observation.py"],
     [("prediction", "compute_ttc_grid"), ("window", "TimeToCollisionObservation.observe"), ("transitions, rewards, terminals", "finite_mdp, transition_model, clip_position")],
     ["the grid, the observation and the arguments given to the MDP constructor"])

prop("C08", "Grayscale observations are the stacked rendered frames",
     "A grayscale observation has the declared shape and contains, as its last layer, the weighted luminance of the frame the simulator currently renders, pixel for pixel in its correct orientation, "
     "scaled to the declared value range. The earlier layers are the previous observations' last layers in order (zeros before the episode's first frames), and an observation already returned to the caller is not changed by later steps.",
     ["histories", "configurations"],
     "all scenes, frame sizes (square or not), weights, stack sizes and step sequences",
     "no test uses grayscale observations",
     [H + "envs/common/observation.py", H + "envs/common/graphics.py"],
     [("frame capture, conversion and stacking", "GrayscaleObservation.observe/_record_to_grayscale"), ("frame", "EnvViewer.get_image")],
     ["observations against env.render('rgb_array')"])

prop("C09", "Rendering shows the scene without influencing it",
     "Rendering an environment, recording vehicle histories for display, attaching a viewer, displaying an agent's planned action sequence or letting frames be rendered automatically during steps never changes any trajectory, "
     "observation or reward. A rendered frame has the configured screen size, is centred on the first controlled vehicle at the configured position and scale, and shows every visible vehicle's body, in its state's colour, at its true position and heading, and road objects and lane markings at theirs. The planned trajectory shown is the one of the agent's planned actions, and the recorded past shown is where each vehicle was. A frame asked for after steps, after a reset or inside the rendering callback shows the scene of that moment, whatever was rendered before and in whichever mode.",
     ["histories", "configurations"],
     "all environments, points of an episode, viewer and rendering configurations and rendering schedules",
     "the tests render one frame per environment with a dummy driver that draws nothing",
     [H + "envs/common/graphics.py", H + "envs/common/abstract.py", H + "road/graphics.py", H + "vehicle/graphics.py"],
     [("viewer", "EnvViewer.display/get_image/set_agent_action_sequence"), ("world to pixel map", "WorldSurface"), ("vehicle drawing", "VehicleGraphics.display"), ("automatic frames", "AbstractEnv._automatic_rendering")],
     ["twin runs with and without rendering", "pixels of the returned image against vehicle poses"])

prop("C10", "Collisions are detected exactly when bodies overlap, with the right effects",
     "After every simulation step, two vehicles, or a vehicle and an obstacle, whose collision rectangles (bodies scaled by 0.9, at their true headings) overlap are crashed, and a vehicle is never marked crashed without such an overlap; objects that are only landmarks are marked hit by vehicles that are not crashed, without crashing anyone. At the first contact of two vehicles both take the smaller of their speeds in "
     "magnitude (zero against an obstacle, which becomes hit). A crashed vehicle stays crashed, its actions are overridden, and it brakes without steering until it stops; vehicles with collisions disabled never crash.",
     ["inputs", "histories"],
     "all relative poses, sizes and speeds of pairs of vehicles, obstacles and landmarks, all traffic histories",
     "tests collide two aligned vehicles on a straight line and check one touching and one disjoint pair of axis-aligned rectangles",
     [H + "utils.py", H + "vehicle/kinematics.py", H + "road/road.py", H + "road/objects.py"],
     [("rectangle intersection", "utils.rotated_rectangles_intersect, has_corner_inside, point_in_rotated_rectangle"), ("pairwise check", "Vehicle.check_collision, Road.step"), ("override", "Vehicle.clip_actions")],
     ["rectangles of all pairs after each road step, crash/hit flags and speeds before and after"])

prop("C11", "Vehicles move according to the kinematic bicycle model",
     "Each simulation step moves a vehicle by its speed times the time step in the direction of heading plus slip angle (the arctangent of half the tangent of the steering angle), turns it by speed times the sine of the slip angle over half its length times the time step, and "
     "changes its speed by acceleration times the time step. The requested acceleration and steering are used unchanged unless the vehicle is crashed or "
     "faster than its maximum speed in either direction, in which case the acceleration is limited so that the speed returns to the maximum, so speed magnitude never diverges beyond it by more than one step's acceleration. "
     "An action persists until replaced.",
     ["inputs", "histories"],
     "all states, steering angles, accelerations, time steps and action histories, forward and reverse",
     "tests accelerate one vehicle on a straight line and check two coordinates",
     [H + "vehicle/kinematics.py"],
     [("integration", "Vehicle.step"), ("limits", "Vehicle.clip_actions"), ("action persistence", "Vehicle.act")],
     ["position, heading, speed before and after every step of every vehicle"])

prop("C12", "The dynamical bicycle model integrates its documented tyre dynamics",
     "Driving forward at 1 m/s or more, the state derivative of the dynamical vehicle is that of the bicycle model with linear tyre forces proportional to front and rear slip angles; below 1 m/s lateral speed and yaw rate are damped. Each "
     "step advances the state by exactly this derivative times the time step, with steering limited to a right angle and yaw rate to its bound. The linearised derivative, the parametric matrices and the full lateral matrices are the exact linearisation of that derivative around straight driving at the current speed.",
     ["inputs", "histories"],
     "all forward states, steering angles, accelerations and time steps",
     "no test checks the values of the dynamical model's derivative, step or matrices",
     [H + "vehicle/dynamics.py"],
     [("nonlinear and linear derivatives", "BicycleVehicle.derivative/derivative_linear"), ("parametric matrices", "lateral_lpv_structure/dynamics, full_lateral_lpv_structure/dynamics"), ("integration", "BicycleVehicle.step/clip_actions")],
     ["state before and after steps, derivative vectors, matrices"])

prop("C13", "Lane geometry is a consistent coordinate system",
     "For straight, sinusoidal and circular lanes, converting lane coordinates to a world position and back returns the same coordinates, and the lane heading is the direction in which "
     "its centre line advances, with positive lateral offsets on the same side everywhere. Whether a position is on a lane, past its end or able to reach it, and its distance to a lane with or without heading, agree with those coordinates, the lane width, length, margin and forbidden flag, whether or not the coordinates are passed in.",
     ["inputs"],
     "all lane shapes, parameters and orientations, all longitudinal and lateral coordinates (less than half a turn from the start of a circular lane)",
     "no test checks any lane geometry numerically",
     [H + "road/lane.py", H + "utils.py"],
     [("coordinates", "StraightLane, SineLane, CircularLane: position/local_coordinates/heading_at"), ("predicates", "AbstractLane.on_lane/is_reachable_from/after_end/distance/distance_with_heading")],
     ["return values of the lane methods on generated lanes and positions"])

prop("C14", "Road networks answer route and lane queries correctly",
     "In any road network, the shortest path between two nodes is a connected path of minimal length (empty if unreachable), the closest lane to a pose is one minimising distance plus heading error, side lanes are the adjacent existing lanes, and two roads are connected exactly when the second is, or leads to, a road reached from the first by following the route, or "
     "any outgoing road where no route is given, within the search depth. The lane following a finished lane is an existing lane of a road that starts where it ends, on the planned route if there is one, keeping the lane number when lane counts match and otherwise the closest lane; at a dead end it is the lane itself. "
     "Planned routes start with the current lane and lead to the destination; positions along a route follow its lanes consecutively.",
     ["inputs", "configurations"],
     "all network topologies, lane counts, nodes, routes, poses and depths",
     "tests use one straight road and one hand-made network, and never compare with an independent search",
     [H + "road/road.py", H + "vehicle/controller.py"],
     [("search", "RoadNetwork.bfs_paths/shortest_path"), ("lane succession", "RoadNetwork.next_lane"), ("queries", "get_closest_lane_index, side_lanes, is_connected_road, position_heading_along_route"), ("route planning", "ControlledVehicle.plan_route_to")],
     ["return values on generated networks and on the environments' networks"])

prop("C15", "Neighbour queries return the true nearest vehicles",
     "The preceding and following neighbours of a vehicle on a lane are, among all other vehicles and obstacles on that lane (within a one-metre margin), the nearest ones at or ahead of and behind its longitudinal position, or none if there is none; landmarks are never neighbours. The vehicles close to a vehicle are exactly those nearer than the given distance, "
     "ordered by longitudinal gap along its lane, restricted to those not farther than two lengths behind when not seeing behind, and truncated to the requested count.",
     ["inputs", "histories"],
     "all traffic scenes, lanes, vehicles, counts and distances",
     "tests place a handful of vehicles on one straight road and query once",
     [H + "road/road.py"],
     [("neighbours", "Road.neighbour_vehicles"), ("perception", "Road.close_vehicles_to")],
     ["return values against a brute-force scan of the road"])

prop("C16", "Low-level control brings vehicles to their target lane and speed",
     "A controlled vehicle moving forward along a road settles on the centre of its target lane (up to the steady error of a first-order controller on curves) and on its target speed, and stays there; its lateral error converges without leaving the road, on straight, curved and connected lanes at any usual speed and simulation rate. Its acceleration command is proportional to the speed error, and its "
     "steering command follows the documented position-heading cascade, bounded by the maximum steering angle. At the end of a lane it continues on the next lane of its route.",
     ["inputs", "histories", "configurations"],
     "all starting offsets, headings, speeds, targets, lanes, routes and simulation frequencies in normal driving",
     "tests run one lane change and one speed change from a fixed start",
     [H + "vehicle/controller.py", H + "vehicle/kinematics.py"],
     [("steering cascade", "ControlledVehicle.steering_control"), ("speed loop", "ControlledVehicle.speed_control"), ("lane succession", "ControlledVehicle.follow_road")],
     ["commands and poses along simulated trajectories"])

prop("C17", "Meta-actions change target lane and speed exactly as documented",
     "A lane-change meta-action moves the target lane by exactly one lane to that side if that lane exists, is not forbidden and is reachable from the current position, and otherwise does nothing; faster and slower select the next or previous speed "
     "of the vehicle's discrete set relative to the one nearest its current speed, never leaving the set; idle changes neither. The effect is applied to the intended controlled vehicle once per decision and then held. The available actions are always idle, the lane changes from the target lane to a lane that "
     "exists and is reachable, and the speed changes while the target speed is not already the extreme one, among those of the configured action set; taking an unavailable action is like idling; an action index means the action documented for the configured set.",
     ["inputs", "histories", "configurations"],
     "all scenes, positions, speed sets, longitudinal/lateral configurations, agents and action histories",
     "tests change lane and speed once in the middle of a road",
     [H + "vehicle/controller.py", H + "envs/common/action.py", H + "envs/common/abstract.py"],
     [("meta-actions", "ControlledVehicle.act, MDPVehicle.act/speed_to_index/index_to_speed"), ("action table", "DiscreteMetaAction, MultiAgentAction"), ("availability", "AbstractEnv.get_available_actions")],
     ["target lane, target speed and speed index before and after each decision"])

prop("C18", "Continuous actions map linearly to throttle and steering",
     "A continuous action has one entry in [-1, 1] per enabled axis and is mapped linearly to the configured acceleration and steering ranges, throttle first and steering second when both are enabled, and zero for a disabled axis; values outside are clipped when clipping is on and extrapolated otherwise. "
     "The mapped command is the one the intended vehicle executes, unchanged (until the speed limiter or a crash takes over, and within the wheel angle limit of the dynamical vehicle), over the whole policy period, and the dynamical option selects the dynamical vehicle.",
     ["inputs", "configurations"],
     "all action vectors, ranges (including asymmetric ones), axis and clipping options, vehicle models, agents and environments",
     "tests only sample one action and check that stepping works",
     [H + "envs/common/action.py", H + "utils.py"],
     [("mapping", "ContinuousAction.act, utils.lmap"), ("vehicle class", "ContinuousAction.vehicle_class")],
     ["commands held by the vehicle and its resulting motion"])

prop("C19", "Simulated drivers follow the intelligent driver model",
     "A simulated driver's acceleration is the intelligent-driver formula of its speed, target speed, gap along its lane and approach rate to the preceding vehicle on its lane, limited to its maximum acceleration in both directions, and it steers towards its target lane. "
     "Consequently a vehicle on a free road tends to its target speed without overshooting it, and platoons of such drivers that start with safe gaps on a single lane never collide, never back up faster than a crawl and keep their order, whatever their leader does within normal braking.",
     ["inputs", "histories"],
     "all speeds, gaps, target speeds, parameters and leader behaviours",
     "tests follow one leader at constant speed and check one stopping manoeuvre",
     [H + "vehicle/behavior.py"],
     [("car following", "IDMVehicle.acceleration/desired_gap/act")],
     ["the commanded action of every driver at every step", "gaps and speeds of platoons"])

prop("C20", "Drivers change lane only when the lane-change model allows it",
     "A simulated driver starts a lane change only to an existing, non-forbidden, reachable lane next to its current one, at most once per decision period, only when it is not already changing lane and lane changes are enabled, and only if its new follower would not have to brake harder than the safety limit and "
     "either the planned route asks for that direction (on the lane it names, any lane included) without unsafe braking of its own or, where the route asks for none, the overall acceleration gain reaches the threshold; when these conditions hold at a decision instant it does start it. An ongoing change is aborted back to the current lane exactly when another vehicle changing into the same lane is closer ahead than the desired gap. A crashed driver decides nothing any more.",
     ["inputs", "histories"],
     "all traffic scenes, driver parameters, routes and timers",
     "no test exercises a lane change decision",
     [H + "vehicle/behavior.py"],
     [("decision", "IDMVehicle.change_lane_policy/mobil")],
     ["target lane of every driver before and after every decision against a reference evaluation"])

prop("C21", "Linear drivers apply their linear policies within parameter ranges",
     "A linear driver's acceleration is the inner product of its parameters with (speed error, negative part of approach speed, negative part of gap minus safe gap), and its steering is the inner product with (heading error, lateral error) features. Randomised parameters always lie in the documented ranges and belong to that vehicle alone. "
     "While collecting data, each decision appends features and outputs that satisfy output = parameters times features exactly, for each driver separately.",
     ["inputs", "histories"],
     "all scenes, speeds, parameter draws and driver subclasses",
     "tests only check that one linear vehicle stops behind an obstacle",
     [H + "vehicle/behavior.py"],
     [("policies", "LinearVehicle.acceleration/acceleration_features/steering_control/steering_features"), ("randomisation", "LinearVehicle.randomize_behavior"), ("data", "LinearVehicle.collect_data/add_features")],
     ["commands, parameters and data of linear drivers during simulations"])

prop("C22", "Intersection traffic yields according to the right of way",
     "At every regulation instant, for each pair of vehicles whose constant-speed predictions along their routes come within one vehicle length of each other and overlap (rectangles of 1.5 times the length and 0.9 times the width) within the horizon, the one on the lower-priority lane (or, at equal priority, the one behind) is told to yield, unless it is a directly controlled vehicle: its target speed becomes zero and it is marked as yielding. A vehicle that no longer has to yield after the yield duration "
     "resumes its lane's speed limit, and no other vehicle's target speed is changed by the regulation. Regulation happens at the configured frequency for every simulation frequency.",
     ["inputs", "histories", "configurations"],
     "all intersection scenes, lanes, priorities, routes and simulation frequencies",
     "tests only step the intersection environment",
     [H + "road/regulation.py", H + "envs/intersection_env.py"],
     [("regulation", "RegulatedRoad.step/enforce_road_rules/respect_priorities/is_conflict_possible"), ("prediction", "ControlledVehicle.predict_trajectory_constant_speed")],
     ["yielding marks and target speeds of all vehicles around each road step"])

prop("C23", "Rewards equal the documented reward functions",
     "After every step, the reward of each environment is the documented function of the resulting state and action: collision, speed, lane, lane-change, arrival, merging-courtesy and goal-distance terms with the configured or published weights, normalised as documented, and zero off-road in highway. "
     "Normalised rewards stay within [0, 1], a crash never increases the reward, and multi-agent rewards are computed per agent, and averaged in the intersection and summed in parking.",
     ["histories", "configurations", "inputs"],
     "all environments, configurations, states reached and actions",
     "no test checks the value of any reward",
     [H + "envs/highway_env.py", H + "envs/merge_env.py", H + "envs/roundabout_env.py", H + "envs/intersection_env.py", H + "envs/two_way_env.py", H + "envs/parking_env.py", H + "envs/summon_env.py", H + "envs/lane_keeping_env.py"],
     [("reward functions", "_reward, _agent_reward and compute_reward of each environment"), ("linear map", "utils.lmap")],
     ["the reward returned by step against the state read from the environment"])

prop("C24", "Steps advance time by one policy period and episodes end when documented",
     "Each step applies the action once, then simulates exactly the number of simulation steps per policy period at the simulation time step, stopping early only when a terminal condition becomes true. An episode is terminal exactly when its documented condition holds: a crash of a controlled vehicle, the configured duration elapsed (in seconds for the highway and the intersection, in decisions for the roundabout and parking lots), off-road when "
     "configured so, goal reached, end of road passed or all agents arrived, depending on the environment. The returned info reports the ego's speed, crash flag, the action and the cost, and per-agent rewards and terminations in multi-agent environments.",
     ["histories", "configurations"],
     "all environments, frequencies, durations, action sequences and terminal causes",
     "the tests step a few times at the default frequencies and look at no terminal condition",
     [H + "envs/common/abstract.py"] + [H + "envs/%s_env.py" % e for e in ("highway", "merge", "roundabout", "intersection", "two_way", "parking", "summon")],
     [("step loop", "AbstractEnv.step/_simulate"), ("terminal conditions", "_is_terminal of each environment"), ("info", "AbstractEnv.step, _cost, IntersectionEnv.step")],
     ["number, order and duration of road steps per policy step", "terminal flag and info against the state"])

prop("C25", "Goal environments obey the goal contract",
     "In parking and summon, the observation holds the observing vehicle's scaled features both as observation and achieved goal, and the scaled features of the goal landmark as desired goal, which stays fixed during the episode and lies at the centre of a parking spot with its heading (parking) or at one end of the lot (summon). "
     "The returned reward equals the published reward function applied to the achieved and desired goals, that function depends on nothing else but the crash flag in summon, and success is reported exactly when it exceeds the success threshold and then ends the episode.",
     ["histories", "configurations", "inputs"],
     "all episodes, goals, actions, feature and scale configurations and agent counts",
     "tests only step the parking environments once",
     [H + "envs/parking_env.py", H + "envs/summon_env.py", H + "envs/common/observation.py"],
     [("goal observation", "KinematicsGoalObservation"), ("goal reward", "ParkingEnv.compute_reward/_is_success/_reward/_is_terminal, SummonEnv.compute_reward")],
     ["observations, rewards, infos and terminal flags"])

prop("C26", "Scenes are built from the configuration and stay consistent",
     "After every reset the scene matches the configuration: the requested numbers of lanes, controlled and other vehicles of the requested type, on lanes of the network and not overlapping (up to the best-effort spreading of the summon traffic), with initial lane, spacing, speeds and destinations as configured, and with the challenger of the intersection unless it would start within 20 m of an agent. During the episode the set of vehicles only changes by the documented intersection spawning and clearing (spawned at an entry at least 15 m from others; "
     "cleared only when leaving at an exit and never a controlled vehicle), every vehicle's current lane is the closest lane to its pose, and two simultaneous environments share no vehicle, road or parameter.",
     ["histories", "configurations"],
     "all environments, configurations, seeds and episodes",
     "tests reset each environment once and look at nothing in the scene",
     [H + "envs/highway_env.py", H + "envs/merge_env.py", H + "envs/roundabout_env.py", H + "envs/intersection_env.py", H + "envs/two_way_env.py", H + "envs/parking_env.py", H + "envs/summon_env.py", H + "vehicle/kinematics.py"],
     [("scene builders", "_reset, _make_road, _make_vehicles, _create_vehicles of each environment"), ("spawning and clearing", "IntersectionEnv._spawn_vehicle/_clear_vehicles"), ("lane tracking", "Vehicle.on_state_update")],
     ["the road and its vehicles after reset and after every step"])

prop("C27", "Interval arithmetic always contains the true result",
     "Products, scalings, differences, negative parts, integrator terms and coordinate conversions of intervals return intervals (lower bound not above upper bound) that contain the result of the operation for every choice of members of the input intervals, and are tight for products with a certain factor, scalings, differences and straight-lane conversions (conversions being claimed on straight lanes); operands are not modified. "
     "A matrix polytope built from a parameter box has the centre value and exactly the deviations of the box's vertices, and a Metzler test accepts exactly matrices with non-negative off-diagonal entries.",
     ["inputs"],
     "all intervals, matrices and dimensions, including degenerate, negative and sign-changing ones",
     "tests check no interval operation numerically",
     [H + "interval.py"],
     [("operations", "intervals_product/scaling/diff, interval_negative_part, integrator_interval, vector_interval_section, interval_absolute_to_local, interval_local_to_absolute, polytope, is_metzler")],
     ["return values against sampled and extreme members"])

prop("C28", "Linear parameter-varying interval predictors contain all trajectories",
     "Starting from any state in the initial interval, every trajectory of the uncertain linear system, for any admissible time-varying parameter in the convex hull of its deviations and any disturbance within bounds, of the system discretised with the same step, stays within the predicted state interval at every step, expressed in the original coordinates. This holds with or without a change "
     "of coordinates, feedback gain, offset and time-varying known control, and the nominal state tracks the nominal system, to which the interval reduces for an exactly known system; the interval of a certain, undisturbed system that is cooperative or has real eigenvalues is no wider than its modes make it; changing coordinates back and forth is the identity.",
     ["inputs", "histories"],
     "all systems with Metzler or real-diagonalisable closed loops, initial intervals, parameters, disturbances, controls and step sizes in the stable range",
     "one test only draws the predicted intervals; none checks inclusion",
     [H + "interval.py"],
     [("predictor", "LPV.step/step_interval_predictor/step_naive_predictor"), ("coordinates", "LPV.update_coordinates_frame/change_coordinates/set_control")],
     ["predicted intervals against simulated member trajectories"])

prop("C29", "Interval vehicles bound every behaviour of the uncertain driver",
     "While an interval vehicle predicts a driver with uncertain linear parameters, its position, speed and heading intervals are ordered and finite and start from the exact state. On straight roads, in ordinary lane following with or without a leader, the full observer's intervals contain at every step of the horizon the trajectory of the driver for any parameters in the given ranges; so do the position and heading of the default partial observer on eastward roads (and its speed when there is no leader), and the predictor close to the lane centre of a free road. "
     "A directly controlled vehicle whose body overlaps an interval vehicle's set of possible positions is treated as crashed, as is the interval vehicle; certain crashed vehicles have degenerate intervals, and the predictions do not alter the other vehicles.",
     ["inputs", "histories"],
     "all lane-following scenes with or without a leader, parameters in range, initial offsets and horizons",
     "one test draws the prediction of a single scene and checks nothing",
     [H + "vehicle/uncertainty/prediction.py", H + "vehicle/behavior.py"],
     [("interval observer", "IntervalVehicle.observer_step/partial_observer_step/predictor_step"), ("robust collision check", "IntervalVehicle.check_collision")],
     ["intervals against trajectories of sampled drivers", "crash flags"])

prop("C30", "Parameter estimates and route hypotheses are consistent with the data",
     "Given bounded-noise linear data, the estimated parameter is the regularised least-squares solution, the confidence region contains the true parameter, and the polytope built from it (clipped to the prior box) contains every parameter of the box that lies in the region; data generated by the model are judged consistent and grossly incompatible data are not. "
     "A multiple-model driver keeps as hypotheses distinct routes it could be following at the next intersection, always including the one it actually follows, each with its own data, extended by one observation per decision, and drops a route only when its data is inconsistent. The model assumed from a hypothesis is an independent copy of the driver following that route.",
     ["inputs", "histories"],
     "all data sets, parameters, boxes, noise levels, and drives through intersections",
     "one test estimates one parameter from one drive",
     [H + "utils.py", H + "vehicle/uncertainty/estimation.py"],
     [("regression", "utils.confidence_ellipsoid/confidence_polytope/is_valid_observation/is_consistent_dataset"), ("hypotheses", "RegressionVehicle, MultipleModelVehicle")],
     ["estimates against known parameters", "hypothesis lists during drives"])

prop("C31", "Keyboard control triggers the mapped actions and nothing else",
     "With a viewer attached, right and left keys trigger faster and slower, down and up trigger right and left lane changes for meta-actions, and set and release throttle and steering for continuous actions, on the axes that the configured action type has; keys of a disabled axis and all other keys have no effect. "
     "In manual control the actions passed to step are ignored, zoom and pan keys affect only the display of that viewer, and closing the window closes the viewer.",
     ["inputs", "configurations", "histories"],
     "all key event sequences and action configurations",
     "no test sends an event",
     [H + "envs/common/graphics.py", H + "road/graphics.py", H + "envs/common/abstract.py"],
     [("event mapping", "EventHandler, EnvViewer.handle_events"), ("display keys", "WorldSurface.handle_event"), ("manual control", "AbstractEnv._simulate")],
     ["ego commands and targets after each event"])

prop("C32", "Predicted trajectories equal what would really happen",
     "A vehicle's predicted trajectory for a sequence of meta-actions is the sequence of states it would reach if these actions were really executed for the given durations, sampled at the given period, and predicting does not change the vehicle, its road or its route. "
     "The constant-speed prediction gives the lane-centre poses reached from the current lane along the planned route after speed times each time.",
     ["inputs", "histories"],
     "all scenes, action sequences, durations, sampling periods and routes",
     "no test checks a predicted trajectory",
     [H + "vehicle/controller.py", H + "road/road.py"],
     [("prediction", "MDPVehicle.predict_trajectory, ControlledVehicle.predict_trajectory_constant_speed")],
     ["predicted states against executed ones"])

prop("C33", "Lane keeping observes the true lateral state within its configured noise",
     "Each lane-keeping observation reports the true lateral state (lateral position, heading, lateral speed, yaw rate) and its time derivative under the steering just applied, both at the instant of the decision, each component within the configured noise amplitude (exactly when it is zero), with independent noise that fills its range without bias, "
     "and the exact reference state of the current lane (same lateral position minus the lane offset, lane heading, zeros). Exactly the configured attributes are observed, in any selection. "
     "The current lane changes to the next one when and only when the vehicle has left it, steps never end the episode, and the stored trajectory holds one unaltered true state per step.",
     ["inputs", "configurations", "histories"],
     "all vehicle states, steering sequences, noise amplitudes, attribute lists and frequencies",
     "tests only check that the observation belongs to an unbounded space",
     [H + "envs/lane_keeping_env.py", H + "envs/common/observation.py"],
     [("observed attributes", "LaneKeepingEnv.state/derivative/reference_state, AttributesObservation"), ("lane hand-over and storage", "LaneKeepingEnv.step/store_data")],
     ["each observation against the vehicle's state before the step", "statistics of the residuals"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
