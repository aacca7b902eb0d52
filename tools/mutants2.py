"""Planted bugs, batch 2 (environments, observations, actions, predictors, rendering): id, property, file, old text, new text."""
M = []


def m(i, prop, f, old, new):
    M.append((i, prop, f, old, new))


A, O, ACT, MDP, G = "envs/common/abstract.py", "envs/common/observation.py", "envs/common/action.py", "envs/common/finite_mdp.py", "envs/common/graphics.py"
HW, ME, RO, IN, PA, SU, TW, LK = ("envs/highway_env.py", "envs/merge_env.py", "envs/roundabout_env.py", "envs/intersection_env.py", "envs/parking_env.py",
                                  "envs/summon_env.py", "envs/two_way_env.py", "envs/lane_keeping_env.py")
I, U, P, E, VG, RG, K, R, C, B = ("interval.py", "utils.py", "vehicle/uncertainty/prediction.py", "vehicle/uncertainty/estimation.py", "vehicle/graphics.py",
                                  "road/graphics.py", "vehicle/kinematics.py", "road/road.py", "vehicle/controller.py", "vehicle/behavior.py")
# C01 / C02 / C03
m("c01-c", "C01", RO, "destination = self.np_random.choice(destinations)", "destination = np.random.choice(destinations)")
m("c01-d", "C01", TW, "speed=20 + 5*self.np_random.randn(),", "speed=20 + 5*np.random.randn(),")
m("c01-e", "C01", A, "        self.time = self.steps = 0\n        self.done = False\n        self._reset()", "        self.time = 0\n        self.done = False\n        self._reset()\n        self.steps = 0 if self.config.get('duration') else self.steps")
m("c01-f", "C01", A, "        self.time = self.steps = 0\n", "        self.steps = 0\n")
m("c01-g", "C01", O, "self.env.np_random.shuffle(obs[1:])", "np.random.shuffle(obs[1:])")
m("c02-a", "C02", A, "            if k not in ['viewer', 'automatic_rendering_callback']:", "            if k not in ['viewer', 'automatic_rendering_callback', 'config']:")
m("c02-b", "C02", A, "                setattr(result, k, None)\n        return result", "                setattr(result, k, None)\n        result.np_random = self.np_random\n        return result")
m("c02-c", "C02", A, "                setattr(result, k, copy.deepcopy(v, memo))", "                setattr(result, k, copy.deepcopy(v, memo) if k != 'observation_type' else copy.copy(v))")
m("c02-d", "C02", A, "                setattr(result, k, copy.deepcopy(v, memo))", "                setattr(result, k, copy.deepcopy(v, memo) if k != 'goal' else v)")
m("c03-a", "C03", A, "            state_copy.vehicle, self.PERCEPTION_DISTANCE)", "            state_copy.vehicle, self.PERCEPTION_DISTANCE, see_behind=False)")
m("c03-b", "C03", A, "            if v is not env_copy.vehicle:\n                vehicles[i]", "            if v not in env_copy.controlled_vehicles:\n                vehicles[i]")
m("c03-c", "C03", A, "            if v is not env_copy.vehicle:\n                setattr(v, field, value)", "            if v is not env_copy.vehicle and hasattr(v, field):\n                setattr(v, field, value)")
m("c03-d", "C03", A, "                if isinstance(result, Vehicle):", "                if isinstance(result, Vehicle) and result is not v and len(env_copy.road.vehicles) > 2:")
m("c03-e", "C03", B, "target_lane_index=getattr(vehicle, 'target_lane_index', None),\n                target_speed=getattr(vehicle, 'target_speed', None),\n                route=getattr(vehicle, 'route', None), timer=getattr(vehicle, 'timer', None))", "target_lane_index=vehicle.lane_index,\n                target_speed=getattr(vehicle, 'target_speed', None),\n                route=getattr(vehicle, 'route', None), timer=getattr(vehicle, 'timer', None))")
m("c03-f", "C03", A, "v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]", "v.route = [(lane[0], lane[1], preferred_lane) for lane in (v.route or [v.lane_index])[:2]]")
# C04
m("c04-a", "C04", O, "bound = 1 if self.normalize and self.clip and unit_features.issuperset(self.features) else np.inf", "bound = 1 if self.normalize and self.clip else np.inf")
m("c04-b", "C18", ACT, "size = 2 if self.lateral and self.longitudinal else 1", "size = 2 if self.longitudinal else 1")
m("c04-c", "C04", O, "np.zeros((3, 3, int(self.horizon * self.env.config[\"policy_frequency\"])))", "np.zeros((3, 3, self.horizon))")
m("c04-d", "C04", O, "for v in close_vehicles[-self.vehicles_count + 1:]", "for v in close_vehicles")
m("c04-e", "C04", O, "repeats[np.array([0, -1])] += clamped_grid.shape[0]", "repeats[np.array([0, -1])] += clamped_grid.shape[0] - 1")
# C05
m("c05-b", "C05", O, "see_behind=self.see_behind)", "see_behind=self.see_behind or self.order == 'shuffled')")
m("c05-c", "C05", O, "origin = self.observer_vehicle if not self.absolute else None", "origin = self.env.vehicle if not self.absolute else None")
m("c05-d", "C05", K, "            for key in ['x', 'y', 'vx', 'vy']:\n                d[key] -= origin_dict[key]", "            for key in ['x', 'y', 'vx', 'vy', 'heading']:\n                d[key] -= origin_dict[key]")
m("c05-e", "C05", O, "                if self.clip:\n                    df[feature] = np.clip(df[feature], -1, 1)", "                if self.clip:\n                    df[feature] = df[feature].where(df.index == 0, np.clip(df[feature], -1, 1))")
m("c05-f", "C05", K, "        if not observe_intentions:\n            d[\"cos_d\"] = d[\"sin_d\"] = 0", "        if not observe_intentions and not self.crashed:\n            d[\"cos_d\"] = d[\"sin_d\"] = 0")
m("c05-g", "C05", O, "            side_lanes = self.env.road.network.all_side_lanes(self.observer_vehicle.lane_index)\n            self.features_range = {\n                \"x\"", "            side_lanes = self.env.road.network.all_side_lanes(self.env.vehicle.lane_index)\n            self.features_range = {\n                \"x\"")
m("c05-h", "C05", K, "            last_lane = self.road.network.get_lane((_from, _to, _id if _id is not None else 0))\n            return last_lane.position(last_lane.length, 0)", "            last_lane = self.road.network.get_lane((_from, _to, _id if _id is not None else 0))\n            return last_lane.position(self.lane.length, 0)")
# C06
m("c06-a", "C06", O, "cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),", "cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),")
m("c06-b", "C06", O, "int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))", "int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[0])))")
m("c06-c", "C06", O, "                        x = utils.lmap(x, [-1, 1], [self.features_range[\"x\"][0], self.features_range[\"x\"][1]])", "                        x = utils.lmap(x, [-1, 1], [-self.features_range[\"x\"][1], self.features_range[\"x\"][1]])")
m("c06-d", "C06", O, "            self.grid.fill(0)\n", "            self.grid[0].fill(0)\n")
m("c06-e", "C06", O, "                [v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles])", "                [v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles[::1 if len(self.env.road.vehicles) < 20 else -1][:40]])")
m("c06-f", "C06", O, "grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)", "grid_shape = np.asarray(np.round((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)")
# C07
m("c07-a", "C07", MDP, "            if (other is vehicle) or (ego_speed == other_projected_speed):", "            if (other is vehicle) or (other is env.vehicle) or (ego_speed == other_projected_speed):")
m("c07-b", "C07", MDP, "collision_points = [(0, 1), (-margin, 0.5), (margin, 0.5)]", "collision_points = [(0, 1), (-margin, 0.5), (margin, 0.5 if ego_speed > other_projected_speed else 0)]")
m("c07-c", "C07", MDP, "grid[speed_index, lane, time] = np.maximum(grid[speed_index, lane, time], cost)", "grid[speed_index, lane, time] = cost")
m("c07-d", "C07", MDP, "lanes = np.arange(l)/max(l - 1, 1)", "lanes = np.arange(l)/max(l, 1)")
m("c07-e", "C07", MDP, "slower = (a == 4) & (j == 0)", "slower = (a == 4) & (j <= 1)")
m("c07-f", "C07", MDP, "other_projected_speed = other.speed * np.dot(other.direction, vehicle.direction)", "other_projected_speed = other.speed * abs(np.dot(other.direction, vehicle.direction))")
m("c07-g", "C07", MDP, "route=vehicle.route, depth=3):", "route=env.vehicle.route, depth=3):")
m("c07-h", "C07", MDP, "collision = grid == 1", "collision = grid >= 0.5")
m("c07-i", "C07", O, "v0 = grid.shape[0] + self.observer_vehicle.speed_index - obs_speeds // 2", "v0 = min(grid.shape[0] + self.observer_vehicle.speed_index, 2 * grid.shape[0] - 2) - obs_speeds // 2")
# C08
m("c08-a", "C08", O, "        self.state = np.roll(self.state, -1, axis=-1)\n        self.state[:, :, -1] = new_obs\n        return self.state", "        self.state[:, :, :-1] = self.state[:, :, 1:]\n        self.state[:, :, -1] = new_obs\n        return self.state")
m("c08-b", "C08", O, "self.state[:, :, -1] = new_obs", "self.state[:, :, -1] = new_obs / 255 if new_obs.max() > 255 else new_obs")
m("c08-c", "C08", O, "np.dot(raw_rgb[..., :3], self.config['weights'])", "np.dot(raw_rgb[..., 2::-1], self.config['weights'])")
m("c08-d", "C08", A, "        if self.should_update_rendering:\n            self.viewer.display()", "        if self.should_update_rendering or self.steps % 7 == 0:\n            self.viewer.display()")
# C09
m("c09-a", "C09", G, "return self.env.vehicle.position\n", "return self.env.vehicle.position + (0 if self.env.vehicle.speed >= 0 else 1)\n")
m("c09-b", "C09", VG, "h = v.heading if abs(v.heading) > 2 * np.pi / 180 else 0", "h = v.heading if abs(np.sin(v.heading)) > 2 * np.pi / 180 else 0")
m("c09-c", "C09", VG, "        elif vehicle.crashed:\n            color = cls.RED\n        elif isinstance(vehicle, LinearVehicle):", "        elif vehicle.crashed and vehicle.speed == 0:\n            color = cls.RED\n        elif isinstance(vehicle, LinearVehicle):")
m("c09-d", "C09", RG, "            if object_.hit:\n                # indicates success", "            if not object_.hit:\n                # indicates success")
m("c09-e", "C09", RG, "        return -margin < x < self.get_width() + margin and -margin < y < self.get_height() + margin", "        return -margin < x < self.get_width() + margin and 0 < y < self.get_height()")
m("c09-f", "C09", K, "                self.history.appendleft(self.create_from(self))", "                self.history.appendleft(self)")
m("c09-g", "C09", G, "1 / 3 / self.env.config[\"policy_frequency\"],", "1 / 3,")
m("c09-h", "C09", RG, "            lats = [2 * (side - 0.5) * width for _ in longis]", "            lats = [(side - 0.5) * width for _ in longis]")
m("c09-i", "C09", RG, "lats = [(side - 0.5) * lane.width_at(s) for s in starts]\n        cls.draw_stripes(lane, surface, starts, ends, lats)\n\n    @classmethod\n    def continuous_curve", "lats = [(side - 0.5) * AbstractLane.DEFAULT_WIDTH for s in starts]\n        cls.draw_stripes(lane, surface, starts, ends, lats)\n\n    @classmethod\n    def continuous_curve")
m("c09-j", "C09", RG, "s_origin, _ = lane.local_coordinates(surface.origin)\n        s0 = (int(s_origin) // cls.STRIPE_SPACING - stripes_count // 2) * cls.STRIPE_SPACING\n        for side", "s_origin, _ = lane.local_coordinates(surface.origin)\n        s0 = max(int(s_origin) // cls.STRIPE_SPACING, 0) * cls.STRIPE_SPACING\n        for side")
# C18
m("c18-a", "C18", ACT, "self.acceleration_range = acceleration_range if acceleration_range else self.ACCELERATION_RANGE", "self.acceleration_range = acceleration_range if acceleration_range and longitudinal and lateral else self.ACCELERATION_RANGE")
m("c18-b", "C18", ACT, "\"steering\": utils.lmap(action[0], [-1, 1], self.steering_range)\n            })\n        self", "\"steering\": utils.lmap(action[-1], [-1, 1], [-self.steering_range[1], self.steering_range[1]])\n            })\n        self")
m("c18-c", "C18", ACT, "            action = np.clip(action, -1, 1)", "            action = np.clip(action, -1, 1) if np.abs(action).max() < 2 else np.sign(action)")
m("c18-d", "C18", ACT, "return Vehicle if not self.dynamical else BicycleVehicle", "return Vehicle if not self.dynamical or not self.lateral else BicycleVehicle")
# C23
m("c23-a", "C23", HW, "+ self.RIGHT_LANE_REWARD * lane / max(len(neighbours) - 1, 1)", "+ self.RIGHT_LANE_REWARD * lane / max(self.config['lanes_count'] - 1, 1)")
m("c23-b", "C23", HW, "reward = 0 if not self.vehicle.on_road else reward", "reward = 0 if not self.vehicle.on_road and not self.vehicle.crashed else reward")
m("c23-c", "C23", HW, "            + self.HIGH_SPEED_REWARD * np.clip(scaled_speed, 0, 1)", "            + self.HIGH_SPEED_REWARD * min(max(scaled_speed, 0), 1) * (self.vehicle.speed < self.vehicle.MAX_SPEED)")
m("c23-d", "C23", ME, "if vehicle.lane_index == (\"b\", \"c\", 2) and isinstance(vehicle, ControlledVehicle):", "if vehicle.lane_index == (\"b\", \"c\", 2) and isinstance(vehicle, ControlledVehicle) and vehicle is not self.vehicle:")
m("c23-e", "C23", RO, "[self.COLLISION_REWARD + self.LANE_CHANGE_REWARD, self.HIGH_SPEED_REWARD], [0, 1])", "[self.COLLISION_REWARD + lane_change * self.LANE_CHANGE_REWARD, self.HIGH_SPEED_REWARD], [0, 1])")
m("c23-f", "C23", IN, "        reward = self.ARRIVED_REWARD if self.has_arrived(vehicle) else reward\n", "        reward = self.ARRIVED_REWARD if self.has_arrived(vehicle) and not vehicle.crashed else reward\n")
m("c23-g", "C23", IN, "               / len(self.controlled_vehicles)\n", "               / self.config[\"controlled_vehicles\"] if not any(v.crashed for v in self.controlled_vehicles) else self.config[\"collision_reward\"]\n")
m("c23-h", "C23", TW, "lane = self.vehicle.target_lane_index[2] if isinstance(self.vehicle, ControlledVehicle) \\\n            else self.vehicle.lane_index[2]", "lane = self.vehicle.lane_index[2]")
m("c23-i", "C23", SU, "            self.COLLISION_REWARD * self.vehicle.crashed", "            self.COLLISION_REWARD * (self.vehicle.crashed and self.vehicle.speed != 0)")
m("c23-j", "C23", LK, "return 1 - (lat/self.lane.width)**2", "return 1 - min((lat/self.lane.width)**2, 1)")
# C24
m("c24-a", "C24", A, "            if self.done or self._is_terminal():\n                break", "            if self.done or self.vehicle.crashed:\n                break")
m("c24-b", "C24", HW, "(self.config[\"offroad_terminal\"] and not self.vehicle.on_road)", "(self.config[\"offroad_terminal\"] and not self.vehicle.lane.on_lane(self.vehicle.position, margin=1))")
m("c24-c", "C24", IN, "               or all(self.has_arrived(vehicle) for vehicle in self.controlled_vehicles) \\", "               or any(self.has_arrived(vehicle) for vehicle in self.controlled_vehicles) \\")
m("c24-d", "C24", RO, "self.vehicle.crashed or self.steps >= self.config[\"duration\"]", "self.vehicle.crashed or self.steps >= self.config[\"duration\"] * self.config[\"policy_frequency\"]")
m("c24-e", "C24", ME, "self.vehicle.crashed or self.vehicle.position[0] > 370", "self.vehicle.crashed or self.vehicle.lane.local_coordinates(self.vehicle.position)[0] > 370")
m("c24-f", "C24", PA, "success = all(self._is_success", "success = any(self._is_success")
m("c24-g", "C24", TW, "float(self.vehicle.lane_index[2] == 0)/15", "float(self.vehicle.lane_index == (\"a\", \"b\", 0))/15")
m("c24-h", "C23", IN, "info[\"agents_rewards\"] = tuple(self._agent_reward(action, vehicle) for vehicle in self.controlled_vehicles)", "info[\"agents_rewards\"] = tuple(self._agent_reward(action, vehicle) if not vehicle.crashed else self.config[\"collision_reward\"] for vehicle in self.controlled_vehicles)")
m("c24-i", "C24", A, "int(self.config[\"simulation_frequency\"] // self.config[\"policy_frequency\"])):", "int(np.ceil(self.config[\"simulation_frequency\"] / self.config[\"policy_frequency\"]))):")
# C25
m("c25-a", "C25", PA, "            \"achieved_goal\": obs / self.scales,\n", "            \"achieved_goal\": obs / self.scales,\n")
m("c25-b", "C25", O, "            \"achieved_goal\": obs / self.scales,\n            \"desired_goal\": goal / self.scales\n", "            \"achieved_goal\": obs / self.scales if self.env.steps else goal * 0 + obs / self.scales,\n            \"desired_goal\": goal / self.scales if not self.env.goal.hit else obs / self.scales\n")
m("c25-c", "C25", PA, "self.goal = Landmark(self.road, lane.position(lane.length/2, 0), heading=lane.heading)", "self.goal = Landmark(self.road, lane.position(lane.length/2, 0), heading=abs(lane.heading))")
m("c25-d", "C25", PA, "return self.compute_reward(achieved_goal, desired_goal, {}) > -self.SUCCESS_GOAL_REWARD", "return self.compute_reward(achieved_goal, desired_goal, {}) > -self.SUCCESS_GOAL_REWARD and not self.vehicle.crashed")
m("c25-e", "C25", PA, "return -np.power(np.dot(np.abs(achieved_goal - desired_goal), self.REWARD_WEIGHTS), p)", "return -np.power(np.dot(np.abs(achieved_goal - desired_goal), self.REWARD_WEIGHTS), p if p >= 0.5 else 0.5)")
m("c25-f", "C25", PA, "lane = self.np_random.choice(self.road.network.lanes_list())", "lane = self.np_random.choice(self.road.network.lanes_list()[:-1])")
# C26
m("c26-c", "C26", IN, "self._spawn_vehicle(60, spawn_probability=1, go_straight=True, position_deviation=0.1, speed_deviation=0)", "self._spawn_vehicle(60, go_straight=True, position_deviation=0.1, speed_deviation=0)")
m("c26-d", "C26", IN, "vehicle in self.controlled_vehicles or not (is_leaving(vehicle) or vehicle.route is None)]", "vehicle is self.vehicle or not (is_leaving(vehicle) or vehicle.route is None)]")
m("c26-e", "C26", IN, "if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:", "if v not in self.controlled_vehicles and np.linalg.norm(v.position - ego_vehicle.position) < 20 and v.lane is ego_vehicle.lane:")
m("c26-f", "C26", HW, "lane_id=self.config[\"initial_lane_id\"],", "lane_id=self.config[\"initial_lane_id\"] or None,")
m("c26-g", "C26", IN, "destination = self.config[\"destination\"] or \"o\" + str(self.np_random.randint(1, 4))", "destination = self.config[\"destination\"] or \"o\" + str(self.np_random.randint(0, 4))")
m("c26-h", "C26", IN, "        for v in self.road.vehicles:\n            if np.linalg.norm(v.position - vehicle.position) < 15:", "        for v in self.road.vehicles:\n            if v.lane_index == vehicle.lane_index and np.linalg.norm(v.position - vehicle.position) < 15:")
m("c26-i", "C26", TW, "            v.target_lane_index = (\"b\", \"a\", 0)\n", "            v.target_lane_index = v.lane_index\n")
m("c26-j", "C26", RO, "            destination = destinations[self.config[\"incoming_vehicle_destination\"]]", "            destination = destinations[self.config[\"incoming_vehicle_destination\"] - 1]")
m("c26-k", "C26", SU, "longitudinal = (i * 5) - (self.x_range / 8) * self.np_random.randint(-1, 1)", "longitudinal = (i * 5) - (self.x_range / 8) * self.np_random.randint(-1, 2) - 30")
# C27
m("c27-a", "C27", I, "- np.dot(n(a[0]), p(b[1])) + np.dot(n(a[1]), n(b[1])),", "- np.dot(n(a[0]), p(b[1])) + np.dot(n(a[0]), n(b[1])),")
m("c27-b", "C27", I, "np.dot(p(a), b[1]) - np.dot(n(a), b[0])])", "np.dot(p(a), b[1]) + np.dot(n(a), b[1])])")
m("c27-c", "C27", I, "    corners_dist = [np.dot(corner, direction) for corner in corners]", "    corners_dist = [np.dot(corner, direction) for corner in (corners[0], corners[3])]")
m("c27-d", "C27", I, "    elif x[1] <= 0:\n        interval_gain = -k", "    elif x[1] <= 0:\n        interval_gain = -np.array([k[0], k[0]])")
m("c27-e", "C27", I, "params_intervals[vertex_id, np.arange(len(vertex_id))]", "params_intervals[vertex_id, np.arange(len(vertex_id)) % 3]")
m("c27-f", "C27", I, "return (matrix - np.diag(np.diag(matrix)) >= -eps).all()", "return (matrix >= -eps).all() or (np.triu(matrix, 1) + np.tril(matrix, -1).T >= -eps).all()")
m("c27-g", "C27", I, "position_corners = np.array([[position_i[0, 0], position_i[0, 1]],\n                                 [position_i[0, 0], position_i[1, 1]],", "position_corners = np.array([[position_i[0, 0], position_i[0, 1]],\n                                 [position_i[0, 0], position_i[0, 1]],")
# C28
m("c28-a", "C28", I, "        da_n = sum((n(da_i) for da_i in da), np.zeros(a0.shape))", "        da_n = da_p")
m("c28-b", "C28", I, "p(d) @ o_m - n(d) @ o_M + b @ u", "d @ o_m + b @ u")
m("c28-c", "C28", I, "        self.d = self.change_coordinates(self.d, offset=False)", "        self.d = self.change_coordinates(self.d, offset=True)")
m("c28-d", "C28", I, "            control = control - self.k @ state  # the", "            control = control - self.k @ (state if state.shape[0] == 1 else state * 1.0) * (1 if np.any(self.k > 0) else 0)  # the")
m("c28-e", "C28", I, "        a_i = np.array([a0, a0]) + sum(intervals_product([0, 1], [da_i, da_i]) for da_i in da)", "        a_i = np.array([a0 + np.amin(da, axis=0), a0 + np.amax(da, axis=0)]) if len(da) else np.array([a0, a0])")
m("c28-f", "C28", I, "                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze(-1) + \\", "                value = np.sort(np.array([transformation @ v for v in value]), axis=0) + \\")
m("c28-g", "C28", I, "            if np.isreal(eig_v).all():", "            if np.isreal(eig_v).any():")
# C29
m("c29-a", "C29", P, "            lateral_i = -np.flip(lateral_i)\n", "            lateral_i = -lateral_i\n")
m("c29-b", "C29", P, "cos_i = [-1 if contains(np.pi) else min(map(np.cos, psi_i)),", "cos_i = [min(map(np.cos, psi_i)),")
m("c29-c", "C29", P, "            phi_a_i[:, 2] = interval_negative_part(intervals_diff(d_i, d_safe_i))", "            phi_a_i[:, 2] = interval_negative_part(d_i - d_safe_i)")
m("c29-d", "C29", P, "            diff_i = intervals_diff(front_interval.position, position_i)", "            diff_i = front_interval.position - position_i")
m("c29-e", "C29", P, "        dv_i = np.clip(dv_i, -self.ACC_MAX, self.ACC_MAX)", "        dv_i = np.clip(dv_i, -self.COMFORT_ACC_MAX, self.COMFORT_ACC_MAX)")
m("c29-f", "C29", P, "            d_safe_i = self.DISTANCE_WANTED + self.TIME_WANTED * v_i", "            d_safe_i = self.DISTANCE_WANTED + self.TIME_WANTED * np.array([self.speed, self.speed])")
m("c29-g", "C29", P, "        if self.crashed:\n            self.interval = VehicleInterval(self)", "        if self.crashed and not self.interval_trajectory:\n            self.interval = VehicleInterval(self)")
m("c29-h", "C29", P, "        v_plus.road = copy.copy(v_plus.road)\n", "")
m("c29-i", "C29", P, "                front_interval = front_vehicle.interval", "                front_interval = VehicleInterval(front_vehicle)")
# C30
m("c30-a", "C30", U, "np.sqrt(lambda_*d) * param_bound", "np.sqrt(lambda_*d)")
m("c30-b", "C30", U, "    theta_n_lambda = np.linalg.inv(g_n_lambda) @ np.transpose(phi) @ y / sigma", "    theta_n_lambda = np.linalg.inv(g_n_lambda) @ np.transpose(phi) @ y / sigma if len(y) > d_min(phi) else np.zeros(phi.shape[-1])")
m("c30-c", "C30", E, "            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):\n                route.pop(0)", "            if len(route) > 2 and self.road.network.get_lane(route[0]).after_end(self.position):\n                route.pop(0)")
m("c30-d", "C30", E, "                self.data.append((route.copy(), {}))  # Add it", "                self.data.append((route.copy(), self.data[0][1] if self.data else {}))  # Add it")
m("c30-e", "C30", E, "        index = min(index, len(self.data)-1)\n", "        index = index % len(self.data)\n")
m("c30-f", "C30", E, "self.add_features(data, route[0], output_lane=self.target_lane_index)", "self.add_features(data, route[0])")
m("c30-g", "C30", U, "    error_bound = np.sqrt(np.amax(eig_phi) / np.amin(eig_g)) * beta + sigma", "    error_bound = np.sqrt(np.amax(eig_phi) / np.amax(eig_g)) * beta + sigma")
# C31
m("c31-a", "C31", G, "        steering_index = action_type.space().shape[0] - 1\n", "        steering_index = 1 if action_type.longitudinal else 0\n")
m("c31-b", "C31", G, "            if event.key == pygame.K_LEFT and action_type.lateral:\n                action[steering_index] = 0\n", "            if event.key == pygame.K_LEFT and action_type.lateral and action[steering_index] > 0:\n                action[steering_index] = 0\n")
m("c31-c", "C31", G, "            if event.key == pygame.K_RIGHT and action_type.longitudinal:\n                action_type.act(action_type.actions_indexes[\"FASTER\"])", "            if event.key == pygame.K_RIGHT and action_type.longitudinal and not event.mod:\n                action_type.act(action_type.actions_indexes[\"FASTER\"])")
m("c31-d", "C31", A, "                    and not self.config[\"manual_control\"] \\", "                    and not (self.config[\"manual_control\"] and self.viewer) \\")
m("c31-e", "C31", RG, "                self.centering_position[0] += self.MOVING_FACTOR", "                self.centering_position[0] += self.MOVING_FACTOR / self.scaling * self.INITIAL_SCALING")
m("c31-f", "C31", G, "            if self.env.action_type:\n", "            if self.env.action_type and self.env.config[\"manual_control\"]:\n")
