"""Planted bugs, batch 1 (roads and vehicles): id, property, file, old text, new text."""
M = []


def m(i, prop, f, old, new):
    M.append((i, prop, f, old, new))


L, R, K, C, B, D = ("road/lane.py", "road/road.py", "vehicle/kinematics.py", "vehicle/controller.py", "vehicle/behavior.py", "vehicle/dynamics.py")
REG, OBJ = "road/regulation.py", "road/objects.py"
# C13
m("c13-a", "C13", L, "0 <= longitudinal < self.length + self.VEHICLE_LENGTH\n        return is_close", "0 <= longitudinal < self.length\n        return is_close")
m("c13-b", "C13", L, "phi = self.start_phase + utils.wrap_to_pi(phi - self.start_phase)", "phi = self.start_phase + (phi - self.start_phase) % (2 * np.pi) if self.direction > 0 else self.start_phase + utils.wrap_to_pi(phi - self.start_phase)")
m("c13-c", "C13", L, "abs(r) + max(s - self.length, 0) + max(0 - s, 0) + heading_weight*angle", "abs(r) + max(s - self.length, 0) + heading_weight*angle")
m("c13-d", "C13", L, "angle = np.abs(wrap_to_pi(heading - self.heading_at(s)))", "angle = np.abs(wrap_to_pi(heading - self.heading_at(0)))")
m("c13-e", "C13", L, "if not longitudinal or not lateral:\n            longitudinal, lateral = self.local_coordinates(position)", "if not longitudinal and not lateral:\n            longitudinal, lateral = self.local_coordinates(position)")
m("c13-f", "C13", L, "self.amplitude * self.pulsation * np.cos(self.pulsation * longitudinal + self.phase))", "self.amplitude * self.pulsation * np.cos(self.pulsation * min(longitudinal, self.length) + self.phase))")
# C14
m("c14-a", "C14", R, "                if _next in path:\n                    continue\n", "                if _next in path and _next != goal:\n                    continue\n")
m("c14-b", "C14", R, "if len(self.graph[_from][_to]) == len(self.graph[_to][next_to]):", "if len(self.graph[_from][_to]) <= len(self.graph[_to][next_to]):")
m("c14-c", "C14", R, "return self.is_connected_road(route[0], lane_index_2, route[1:], same_lane, depth - 1)", "return self.is_connected_road(route[0], lane_index_2, route[1:], same_lane, depth)")
m("c14-d", "C14", R, "while len(route) > 1 and longitudinal > self.get_lane(route[0]).length:\n            longitudinal -= self.get_lane(route[0]).length", "length = self.get_lane(route[0]).length\n        while len(route) > 1 and longitudinal > self.get_lane(route[0]).length:\n            longitudinal -= length")
m("c14-e", "C14", R, "distances.append(l.distance_with_heading(position, heading))", "distances.append(l.distance_with_heading(position, heading if len(lanes) == 1 else None))")
m("c14-f", "C14", R, "if _id < len(self.graph[_from][_to]) - 1:", "if _id < len(self.graph[_from][_to]) - 1 and not self.graph[_from][_to][_id + 1].forbidden:")
# C15
m("c15-a", "C15", R, "if s <= s_v and (s_front is None or s_v <= s_front):", "if s < s_v and (s_front is None or s_v <= s_front):")
m("c15-b", "C15", R, "and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]", "and (see_behind or -2 * v.LENGTH < vehicle.lane_distance_to(v))]")
m("c15-c", "C15", R, "if v is not vehicle and not isinstance(v, Landmark):", "if v is not vehicle and not isinstance(v, Landmark) and not getattr(v, 'hit', False):")
m("c15-d", "C15", R, "vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))\n        if count", "if count is None or len(vehicles) > count:\n            vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))\n        if count")
m("c15-e", "C15", R, "if not lane.on_lane(v.position, s_v, lat_v, margin=1):", "if not lane.on_lane(v.position, s_v, lat_v, margin=1 if v.speed else 0):")
# C11
m("c11-a", "C11", K, "self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))", "self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED + self.speed))")
m("c11-b", "C11", K, "        if action:\n            self.action = action", "        if action and not self.crashed:\n            self.action = action if any(action.values()) else self.action")
m("c11-c", "C11", K, "self.heading += self.speed * np.sin(beta) / (self.LENGTH / 2) * dt", "self.heading += abs(self.speed) * np.sin(beta) / (self.LENGTH / 2) * dt")
m("c11-d", "C11", K, "        if self.speed > self.MAX_SPEED:\n            self.action['acceleration'] = min(", "        if self.speed > self.MAX_SPEED:\n            self.action['steering'] = 0\n            self.action['acceleration'] = min(")
# C12
m("c12-a", "C12", D, "self.action[\"steering\"] = np.clip(self.action[\"steering\"], -np.pi/2, np.pi/2)\n        self.yaw_rate = np.clip(self.yaw_rate, -self.MAX_ANGULAR_SPEED, self.MAX_ANGULAR_SPEED)", "self.action[\"steering\"] = np.clip(self.action[\"steering\"], -np.pi/2, np.pi/2)\n        self.yaw_rate = np.clip(self.yaw_rate, -np.pi, np.pi)")
m("c12-b", "C12", D, "self.lateral_speed += derivative[4, 0] * dt\n        self.yaw_rate += derivative[5, 0] * dt", "self.lateral_speed += derivative[4, 0] * dt\n        self.yaw_rate += self.derivative[5, 0] * dt")
m("c12-c", "C12", D, "theta_vr = np.arctan2(self.lateral_speed - self.LENGTH_B * self.yaw_rate, self.speed)", "theta_vr = np.arctan2(self.lateral_speed - self.LENGTH_A * self.yaw_rate, self.speed)")
m("c12-d", "C12", D, "self.A_lat, self.B_lat = self.lateral_lpv_dynamics()\n        dx =", "dx =")
m("c12-e", "C12", D, "            [0, speed_body_x, 1, 0],", "            [0, max(speed_body_x, 1), 1, 0],")
# C10
m("c10-a", "C10", K, "self.speed = min([self.speed, 0], key=abs)\n                self.crashed = other.hit = True", "self.speed = min([self.speed, 0])\n                self.crashed = other.hit = True")
m("c10-b", "C10", K, "                self.speed = other.speed = min([self.speed, other.speed], key=abs)", "                self.speed = other.speed = min(self.speed, other.speed)")
m("c10-c", "C10", K, "            if not self.COLLISIONS_ENABLED or not other.COLLISIONS_ENABLED:", "            if not self.COLLISIONS_ENABLED and not other.COLLISIONS_ENABLED:")
m("c10-d", "C10", R, "            for other in self.vehicles:\n                vehicle.check_collision(other)\n            for other in self.objects:", "            for other in self.close_vehicles_to(vehicle, 3 * vehicle.LENGTH, count=4):\n                vehicle.check_collision(other)\n            for other in self.objects:")
m("c10-e", "C10", K, "            self.action['acceleration'] = -1.0*self.speed\n", "            self.action['acceleration'] = -1.0*abs(self.speed)\n")
m("c10-f", "C10", K, "(other.position, 0.9*other.LENGTH, 0.9*other.WIDTH, other.heading))", "(other.position, 0.9*other.LENGTH, 0.9*self.WIDTH, other.heading))")
m("c10-g", "C10", "utils.py", "normal = np.array([-direction[1], direction[0]])", "normal = np.array([direction[1], direction[0]])")
# C16
m("c16-a", "C16", C, "heading_rate_command = self.KP_HEADING * utils.wrap_to_pi(heading_ref - self.heading)", "heading_rate_command = self.KP_HEADING * (heading_ref - utils.wrap_to_pi(self.heading))")
m("c16-b", "C16", C, "heading_command = np.arcsin(np.clip(lateral_speed_command / utils.not_zero(self.speed), -1, 1))", "heading_command = np.arcsin(np.clip(lateral_speed_command / max(abs(self.speed), 1), -1, 1))")
m("c16-c", "C16", C, "if self.road.network.get_lane(self.target_lane_index).after_end(self.position):", "if self.road.network.get_lane(self.lane_index).after_end(self.position):")
m("c16-d", "C16", C, "lane_next_coords = lane_coords[0] + self.speed * self.PURSUIT_TAU\n        lane_future_heading = target_lane", "lane_next_coords = min(lane_coords[0] + self.speed * self.PURSUIT_TAU, target_lane.length)\n        lane_future_heading = target_lane")
# C17
m("c17-a", "C17", C, "target_lane_index = _from, _to, np.clip(_id - 1, 0, len(self.road.network.graph[_from][_to]) - 1)\n            if self.road.network.get_lane(target_lane_index).is_reachable_from(self.position):", "target_lane_index = _from, _to, np.clip(_id - 1, 0, len(self.road.network.graph[_from][_to]) - 1)\n            if self.lane.is_reachable_from(self.position):")
m("c17-b", "C17", C, "        elif action == \"LANE_RIGHT\":\n            _from, _to, _id = self.target_lane_index\n", "        elif action == \"LANE_RIGHT\":\n            _from, _to, _id = self.lane_index\n")
m("c17-c", "C17", C, "            self.speed_index = self.speed_to_index(self.speed) - 1", "            self.speed_index = min(self.speed_index, self.speed_to_index(self.speed)) - 1")
m("c17-d", "C17", C, "        return np.int(np.clip(np.round(x * (self.SPEED_COUNT - 1)), 0, self.SPEED_COUNT - 1))\n\n    @classmethod", "        return np.int(np.clip(np.floor(x * (self.SPEED_COUNT - 1) + 1e-9), 0, self.SPEED_COUNT - 1))\n\n    @classmethod")
# C19
m("c19-a", "C19", B, "np.dot(ego_vehicle.velocity - front_vehicle.velocity, ego_vehicle.direction) if projected", "max(np.dot(ego_vehicle.velocity - front_vehicle.velocity, ego_vehicle.direction), 0) if projected")
m("c19-b", "C19", B, "1 - np.power(max(ego_vehicle.speed, 0) / ego_target_speed, self.DELTA))", "1 - np.power(abs(ego_vehicle.speed) / ego_target_speed, self.DELTA))")
m("c19-c", "C19", B, "        action['acceleration'] = np.clip(action['acceleration'], -self.ACC_MAX, self.ACC_MAX)\n        Vehicle.act", "        action['acceleration'] = np.clip(action['acceleration'], self.COMFORT_ACC_MIN, self.ACC_MAX)\n        Vehicle.act")
m("c19-d", "C19", B, "        front_vehicle, rear_vehicle = self.road.neighbour_vehicles(self)\n        # Lateral: MOBIL", "        front_vehicle, rear_vehicle = self.road.neighbour_vehicles(self, self.target_lane_index)\n        # Lateral: MOBIL")
# C20
m("c20-a", "C20", B, "        new_following_pred_a = self.acceleration(ego_vehicle=new_following, front_vehicle=self)\n", "        new_following_pred_a = self.acceleration(ego_vehicle=new_following, front_vehicle=self if new_preceding else None)\n")
m("c20-b", "C20", B, "            and v.lane_index != self.target_lane_index \\\n", "            and v.lane_index[:2] == self.lane_index[:2] and v.lane_index[2] > self.lane_index[2] \\\n")
m("c20-c", "C20", B, "        self.timer = 0\n", "        self.timer -= self.LANE_CHANGE_DELAY\n")
m("c20-d", "C20", B, "old_following_a = self.acceleration(ego_vehicle=old_following, front_vehicle=self)", "old_following_a = self.acceleration(ego_vehicle=old_following, front_vehicle=new_following)")
m("c20-e", "C20", B, "                        if 0 < d < d_star:", "                        if abs(d) < d_star:")
m("c20-f", "C20", B, "            elif self_pred_a < -self.LANE_CHANGE_MAX_BRAKING_IMPOSED:\n                return False", "            elif new_preceding and new_preceding.speed < self.speed and self_pred_a < -self.ACC_MAX:\n                return False")
# C21
m("c21-a", "C21", B, "        self.ACCELERATION_PARAMETERS = self.ACCELERATION_RANGE[0] + ua*", "        type(self).ACCELERATION_PARAMETERS = self.ACCELERATION_RANGE[0] + ua*")
m("c21-b", "C21", B, "dp = min(d - d_safe, 0)", "dp = min(d - d_safe, 0) if d > 0 else 0")
m("c21-c", "C21", B, "data: dict = None):\n        super().__init__(road, position, heading, speed, target_lane_index, target_speed, route,\n                         enable_lane_change, timer)\n        self.data = data if data is not None else {}", "data: dict = {}):\n        super().__init__(road, position, heading, speed, target_lane_index, target_speed, route,\n                         enable_lane_change, timer)\n        self.data = data if data is not None else {}")
m("c21-d", "C21", B, "            d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED", "            d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * getattr(ego_vehicle, 'TIME_WANTED', self.TIME_WANTED)")
m("c21-e", "C21", B, "        output = np.dot(self.STEERING_PARAMETERS, out_features)", "        output = np.clip(np.dot(self.STEERING_PARAMETERS, out_features), -self.MAX_STEERING_ANGLE, self.MAX_STEERING_ANGLE)")
# C22
m("c22-a", "C22", REG, "            return v1 if v1.front_distance_to(v2) > v2.front_distance_to(v1) else v2", "            return v1 if v1.front_distance_to(v2) > 0 else v2")
m("c22-b", "C22", REG, "times = np.arange(step, horizon, step)", "times = np.arange(step, horizon - 2 * step, step)")
m("c22-c", "C22", REG, "                    v.target_speed = v.lane.speed_limit\n                    delattr", "                    v.target_speed = v.road.network.get_lane(v.target_lane_index).speed_limit + 0 * 1\n                    delattr")
m("c22-d", "C22", REG, "        for i in range(len(self.vehicles) - 1):\n            for j in range(i+1, len(self.vehicles)):\n", "        for i in range(len(self.vehicles) - 1):\n            if getattr(self.vehicles[i], 'is_yielding', False):\n                continue\n            for j in range(i+1, len(self.vehicles)):\n")
m("c22-e", "C22", REG, "max(int(1 / dt / self.REGULATION_FREQUENCY), 1)", "max(int(1 / dt) // self.REGULATION_FREQUENCY, 1)")
m("c22-f", "C22", REG, "                if v.yield_timer >= self.YIELD_DURATION * self.REGULATION_FREQUENCY:", "                if v.yield_timer >= self.YIELD_DURATION:")
# C32
m("c32-a", "C32", C, "            v.act(action)  # High-level decision", "            v.act(action if action != 'LANE_LEFT' or states else 'IDLE')  # High-level decision")
m("c32-b", "C32", C, "v = copy.deepcopy(self)\n        t = 0", "v = copy.copy(self)\n        v.position = self.position.copy()\n        t = 0")
m("c32-c", "C32", R, "            route = route[1:]\n        return self.get_lane(route[0]).position", "            route.pop(0)\n        return self.get_lane(route[0]).position")
m("c32-d", "C32", C, "                    states.append(copy.deepcopy(v))", "                    states.append(copy.copy(v))")
# C02/C03-ish
m("c01-a", "C01", B, "(np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY", "(id(self) / 4096 * np.pi) % self.LANE_CHANGE_DELAY")
m("c01-b", "C01", R, "next_to = list(self.graph[_to].keys())[np_random.randint(len(self.graph[_to]))]", "next_to = list(set(self.graph[_to].keys()))[np_random.randint(len(self.graph[_to]))]")
m("c26-a", "C26", K, "x0 = np.max([lane.local_coordinates(v.position)[0] for v in road.vehicles]) \\\n            if len(road.vehicles) else 3*offset", "x0 = np.max([lane.local_coordinates(v.position)[0] for v in road.vehicles[-2:]]) \\\n            if len(road.vehicles) else 3*offset")
m("c26-b", "C26", K, "            self.lane_index = self.road.network.get_closest_lane_index(self.position, self.heading)\n            self.lane = self.road.network.get_lane(self.lane_index)\n            if", "            if not self.lane.on_lane(self.position):\n                self.lane_index = self.road.network.get_closest_lane_index(self.position, self.heading)\n                self.lane = self.road.network.get_lane(self.lane_index)\n            if")
m("c05-a", "C05", K, "            for key in ['x', 'y', 'vx', 'vy']:\n                d[key] -= origin_dict[key]\n        return d\n\n    def __str__", "            for key in ['x', 'y', 'vx', 'vy']:\n                d[key] -= origin_dict[key] if origin_vehicle.speed >= 0 or key in 'xy' else 0\n        return d\n\n    def __str__")
