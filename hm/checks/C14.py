"""Road network queries against brute-force graph search and reference lane geometry."""
import copy

import numpy as np

from hm import world as W
from hm.world import Road, RoadNetwork, StraightLane, CircularLane, ControlledVehicle

RULE = ("random directed road graphs (1-3 lanes per road, cycles, dead ends, parallel routes, unreachable parts), chains of roads of varying "
        "lane counts, and the environments' networks; queries over random node pairs, poses, lane pairs, routes and depths; a case is one "
        "query with its answer; distinct by graph and arguments")
REQUIRED = {"paths_reachable": 800, "paths_unreachable": 200, "all_paths": 300, "closest": 1500, "connected_true": 500, "connected_false": 500,
            "connected_by_route": 100, "next_random": 300, "next_unnumbered": 200, "next_route": 500, "next_dead_end": 100, "next_same_count": 300, "next_other_count": 300,
            "plans": 500, "plans_failed": 50, "along": 1000, "along_multi": 400}


def random_graph(rng):
    n = rng.randint(3, 9)
    nodes = [str(i) if rng.rand() < .5 else "n%d" % i for i in range(n)]
    rng.shuffle(nodes)
    pos = {k: rng.uniform(-150, 150, size=2) for k in nodes}
    net = RoadNetwork()
    edges = set()
    p = rng.choice([.15, .25, .4])
    for a in nodes:
        for b in nodes:
            if a != b and rng.rand() < p:
                edges.add((a, b))
    if not edges:
        edges.add((nodes[0], nodes[1]))
    edges = sorted(edges)
    rng.shuffle(edges)
    for a, b in edges:
        d = pos[b] - pos[a]
        u = d / np.linalg.norm(d)
        lat = np.array([-u[1], u[0]])
        for i in range(int(rng.choice([1, 1, 2, 3]))):
            net.add_lane(a, b, StraightLane(pos[a] + 4. * i * lat, pos[b] + 4. * i * lat))
    return net, nodes


def some_net(rng):
    """A network; on some, lane attributes that no query is about (forbidden, priority, speed limit) vary."""
    net = plain_net(rng)
    if rng.rand() < .6:
        for lane in net.lanes_list():
            lane.forbidden = bool(rng.rand() < .3)
            lane.priority = int(rng.randint(4))
            lane.speed_limit = [None, 5., 20., 30.][rng.randint(4)]
    return net


def plain_net(rng):
    r = rng.rand()
    if r < .6:
        return random_graph(rng)[0]
    if r < .75:
        return W.chain_net(rng, lanes=rng.randint(1, 4), pieces=rng.randint(2, 5) if rng.rand() < .8 else rng.randint(12, 40))
    return W.random_env_roads(rng)[1].road.network


def succ(net, a):
    return list(net.graph.get(a, {}))


def bfs_dist(net, a):
    d, todo = {a: 0}, [a]
    while todo:
        x = todo.pop(0)
        for y in succ(net, x):
            if y not in d:
                d[y] = d[x] + 1
                todo.append(y)
    return d


def simple_paths(net, a, b, path=None):
    path = path or [a]
    for y in succ(net, path[-1]):
        if y == b:
            yield path + [y]
        elif y not in path:
            yield from simple_paths(net, a, b, path + [y])


def all_nodes(net):
    return sorted(set(net.graph) | {t for to in net.graph.values() for t in to})


def paths(ctx, count):
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            break
        net = some_net(rng)
        nodes = all_nodes(net)
        for _ in range(12):
            a, b = nodes[rng.randint(len(nodes))], nodes[rng.randint(len(nodes))]
            if a == b or (b == "unknown"):
                continue
            if a not in net.graph:
                a = list(net.graph)[rng.randint(len(net.graph))]
                if a == b:
                    continue
            with ctx.guard(dict(graph={f: {t: len(l) for t, l in to.items()} for f, to in net.graph.items()}, start=a, goal=b)):
                before = {f: list(to) for f, to in net.graph.items()}
                got = net.shortest_path(a, b)
                dist = bfs_dist(net, a)
                if b in dist:
                    ctx.count("paths_reachable")
                    ctx.ok(len(got) == dist[b] + 1 and got[0] == a and got[-1] == b, "not-shortest", "path %s, distance %d" % (got, dist[b]))
                    ctx.ok(all(y in net.graph.get(x, {}) for x, y in zip(got, got[1:])), "disconnected-path", str(got))
                else:
                    ctx.count("paths_unreachable")
                    ctx.ok(list(got) == [], "path-to-unreachable", str(got))
                if len(net.graph) <= 10:
                    allp = [list(p) for p in net.bfs_paths(a, b)]
                    ref = sorted(simple_paths(net, a, b))
                    ctx.ok(sorted(allp) == ref, "all-paths", "bfs_paths gives %s instead of %s" % (allp[:5], ref[:5]))
                    ctx.ok(all(len(x) <= len(y) for x, y in zip(allp, allp[1:])), "paths-order", str(allp[:6]))
                    ctx.count("all_paths")
                ctx.ok(before == {f: list(to) for f, to in net.graph.items()}, "graph-changed", "a search changed the graph")
                ctx.seen(sorted((f, t) for f in net.graph for t in net.graph[f]), a, b)


def lanes(ctx, count):
    rng = ctx.rng
    for k in range(count):
        if ctx.out_of_time():
            break
        net = some_net(rng)
        idx = W.all_indexes(net)
        with ctx.guard(dict(k=k)):
            ctx.ok(len(list(net.lanes_list())) == len(idx) and all(any(l is W.lane_of(net, i) for i in idx) for l in net.lanes_list()), "lanes-list", "")
            for _ in range(15):
                i = idx[rng.randint(len(idx))]
                f, t, j = i
                n = len(net.graph[f][t])
                ctx.ok(net.get_lane(i) is net.graph[f][t][j], "get-lane", str(i))
                if n == 1:
                    ctx.ok(net.get_lane((f, t, None)) is net.graph[f][t][0], "get-lane", "unnumbered lane")
                ctx.ok([tuple(x) for x in net.all_side_lanes(i)] == [(f, t, q) for q in range(n)], "all-side-lanes", str(i))
                ctx.ok(sorted(tuple(x) for x in net.side_lanes(i)) == [(f, t, q) for q in (j - 1, j + 1) if 0 <= q < n], "side-lanes", str(net.side_lanes(i)))
                o = idx[rng.randint(len(idx))]
                for same in (False, True):
                    ctx.ok(bool(net.is_same_road(i, o, same)) == (i[:2] == o[:2] and (not same or i[2] == o[2])), "same-road", str((i, o, same)))
                    ctx.ok(bool(net.is_leading_to_road(i, o, same)) == (i[1] == o[0] and (not same or i[2] == o[2])), "leading", str((i, o, same)))
                # closest lane
                lane = W.lane_of(net, i)
                p = np.asarray(lane.position(float(rng.uniform(-5, lane.length + 5)), 0.)) + rng.normal(size=2) * rng.choice([.5, 5, 30])
                h = None if rng.rand() < .3 else float(rng.uniform(-7, 7))
                got = net.get_closest_lane_index(p, h) if h is not None or rng.rand() < .5 else net.get_closest_lane_index(p)
                ds = {q: W.ref_lane_distance(W.lane_of(net, q), p, h) for q in idx}
                if any(W.lane_kind(W.lane_of(net, q)) == "circular" and abs(abs(W.ref_local(W.lane_of(net, q), p)[0]) / W.lane_of(net, q).radius - np.pi) < 1e-3 for q in idx):
                    continue
                ctx.count("closest")
                ctx.ok(tuple(got) in ds and ds[tuple(got)] <= min(ds.values()) + 1e-6, "closest-lane",
                       "closest lane to %s heading %s is %s at %s, answered %s at %s" % (p, h, min(ds, key=ds.get), min(ds.values()), got, ds.get(tuple(got))))
                ctx.seen("closest", p, h or 0., len(idx))


def ref_connected(net, l1, l2, route, same, depth):
    todo = [(l1, list(route or []), depth)]
    while todo:
        cur, r, d = todo.pop()
        same_road = cur[:2] == l2[:2]
        leads = l2[1] == cur[0]
        if (same_road or leads) and (not same or cur[2] == l2[2]):
            return True
        if d <= 0:
            continue
        while r and tuple(r[0][:2]) == tuple(cur[:2]):
            r = r[1:]
        if r and r[0][0] == cur[1]:
            todo.append((r[0], r[1:], d - 1))
        else:
            for t in net.graph.get(cur[1], {}):
                todo.append(((cur[1], t, cur[2]), r, d - 1))
    return False


def random_route(rng, net, start, n, ids=True):
    route, cur = [start], start
    for _ in range(n):
        nx = succ(net, cur[1])
        if not nx:
            break
        t = nx[rng.randint(len(nx))]
        k = len(net.graph[cur[1]][t])
        cur = (cur[1], t, int(rng.randint(k)) if (ids or k > 1) else None)
        route.append(cur)
    return route


def connected(ctx, count):
    rng = ctx.rng
    for k in range(count):
        net = some_net(rng)
        idx = W.all_indexes(net)
        for _ in range(20):
            a, b = idx[rng.randint(len(idx))], idx[rng.randint(len(idx))]
            route = None
            r = rng.rand()
            if r < .6:
                route = random_route(rng, net, a, rng.randint(1, 5))
                if r < .2:
                    route = route[1:]
                if r < .3 and len(route) > 1:
                    q = route[rng.randint(len(route))]
                    b = q if rng.rand() < .5 else b
            depth = int(rng.randint(0, 5))
            same = bool(rng.rand() < .3)
            with ctx.guard(dict(a=a, b=b, route=route, depth=depth, same=same)):
                keep = copy.deepcopy(route)
                got = bool(net.is_connected_road(a, b, route=route, same_lane=same, depth=depth))
                exp = ref_connected(net, a, b, route, same, depth)
                ctx.ok(got == exp, "connected", "is_connected_road(%s, %s, %s, same_lane=%s, depth=%s) is %s" % (a, b, route, same, depth, got))
                ctx.ok(route == keep, "route-consumed", "a connection query changed the route")
                ctx.count("connected_true" if exp else "connected_false")
                ctx.count("connected_by_route", int(bool(exp and route and depth and not ref_connected(net, a, b, None, same, 0))))
                ctx.seen("conn", a, b, str(route), depth, same, len(idx))


def next_lanes(ctx, count):
    rng = ctx.rng
    for k in range(count):
        net = some_net(rng)
        idx = W.all_indexes(net)
        for _ in range(20):
            cur = idx[rng.randint(len(idx))]
            f, t, i = cur
            lane = W.lane_of(net, cur)
            p = np.asarray(lane.position(float(rng.uniform(lane.length - 4, lane.length + 3)), float(rng.uniform(-6, 6))))
            route = None
            r = rng.rand()
            if r < .7:
                # roads of a plan may name another lane than the one driven on, or none
                start = (f, t, [i, None, int(rng.randint(len(net.graph[f][t])))][rng.randint(3)])
                route = random_route(rng, net, start, rng.randint(1, 4), ids=rng.rand() < .5)
                if r < .2:
                    route = route[1:]
                ctx.count("next_unnumbered", int(route[:1] != [cur] and bool(route) and route[0][:2] == (f, t)))
            seed = int(rng.randint(1 << 30))
            with ctx.guard(dict(cur=cur, route=route, p=p)):
                orig = copy.deepcopy(route)
                got = net.next_lane(cur, route=route, position=p, np_random=np.random.RandomState(seed))
                out = succ(net, t)
                planned = None
                rest = [q for q in (orig or [])]
                if rest and tuple(rest[0][:2]) == (f, t):
                    rest = rest[1:]
                if rest and rest[0][0] == t:
                    planned = rest[0][1]
                if not out:
                    ctx.count("next_dead_end")
                    ctx.ok(tuple(got) == cur, "dead-end", "at a dead end the next lane of %s is %s" % (cur, got))
                    continue
                ok = tuple(got) in idx and got[0] == t
                ctx.ok(ok, "next-not-existing", "next lane of %s is %s" % (cur, got))
                if not ok:
                    continue
                if planned is not None:
                    ctx.count("next_route")
                    ctx.ok(got[1] == planned, "next-off-route", "next lane of %s on route %s is %s" % (cur, orig, got))
                    ctx.ok(route == rest, "route-remaining", "route %s became %s after finishing %s" % (orig, route, cur))
                else:
                    ctx.count("next_random")
                n = len(net.graph[t][got[1]])
                if n == len(net.graph[f][t]):
                    ctx.count("next_same_count")
                    ctx.ok(got[2] == i, "lane-number", "from %s to %s" % (cur, got))
                else:
                    ctx.count("next_other_count")
                    ds = [W.ref_lane_distance(W.lane_of(net, (t, got[1], q)), p) for q in range(n)]
                    ctx.ok(ds[got[2]] <= min(ds) + 1e-6, "not-closest", "from %s at %s to %s, distances %s" % (cur, p, got, ds))
                ctx.seen("next", cur, p, str(orig), n)
        # without a plan, every outgoing road is eventually taken
        forks = [i for i in idx if len(succ(net, i[1])) >= 2]
        if forks:
            cur = forks[rng.randint(len(forks))]
            rs = np.random.RandomState(int(rng.randint(1 << 30)))
            lane = W.lane_of(net, cur)
            p = np.asarray(lane.position(lane.length, 0.))
            with ctx.guard(dict(cur=cur)):
                taken = {net.next_lane(cur, position=p, np_random=rs)[1] for _ in range(40 * len(succ(net, cur[1])))}
                ctx.ok(taken == set(succ(net, cur[1])), "random-exits", "only %s of %s taken" % (taken, succ(net, cur[1])))


def plans(ctx, count):
    rng = ctx.rng
    for k in range(count):
        net = some_net(rng)
        idx = W.all_indexes(net)
        nodes = all_nodes(net)
        road = Road(net, np_random=np.random.RandomState(1))
        for _ in range(12):
            i = idx[rng.randint(len(idx))]
            lane = W.lane_of(net, i)
            with ctx.guard(dict(i=i)):
                v = ControlledVehicle.make_on_lane(road, i, float(rng.uniform(0, lane.length)), speed=10)
                ctx.close(np.asarray(v.position, dtype=float), np.asarray(W.ref_position(lane, W.ref_local(lane, v.position)[0], 0.)), "make-on-lane", "not on the centre line")
                goal = nodes[rng.randint(len(nodes))] if rng.rand() < .93 else "nowhere"
                cur = tuple(v.lane_index)
                if rng.rand() < .4:      # already heading for another lane
                    v.target_lane_index = idx[rng.randint(len(idx))]
                v.plan_route_to(goal)
                route = [tuple(q) for q in v.route]
                ctx.ok(route[0] == cur, "plan-start", "route from %s is %s" % (cur, route))
                ctx.ok(all(x[1] == y[0] and y[1] in net.graph.get(y[0], {}) for x, y in zip(route, route[1:])), "plan-disconnected", str(route))
                d = bfs_dist(net, cur[1])
                if goal in d:
                    ctx.count("plans")
                    ctx.ok(route[-1][1] == goal and len(route) == d[goal] + 1, "plan-goal", "route from %s to %s is %s" % (cur, goal, route))
                else:
                    ctx.count("plans_failed")
                    ctx.ok(len(route) == 1, "plan-unreachable", "route from %s to unreachable %s is %s" % (cur, goal, route))
                ctx.seen("plan", cur, goal, len(idx), len(route))


def along(ctx, count):
    rng = ctx.rng
    for k in range(count):
        net = some_net(rng)
        idx = W.all_indexes(net)
        for _ in range(15):
            route = random_route(rng, net, idx[rng.randint(len(idx))], rng.randint(0, 5), ids=rng.rand() < .5)
            total = sum(W.ref_length(W.lane_of(net, q)) for q in route)
            s, r = float(rng.uniform(-10, total + 20)), float(rng.uniform(-3, 3))
            rest, acc, hit, margin = s, 0, 0, 1e9
            while hit < len(route) - 1:
                L = W.ref_length(W.lane_of(net, route[hit]))
                margin = min(margin, abs(rest - L))
                if rest <= L:
                    break
                rest -= L
                hit += 1
            if margin < 1e-6:
                continue
            lane = W.lane_of(net, route[hit])
            with ctx.guard(dict(route=route, s=s, r=r)):
                keep = list(route)
                p, h = net.position_heading_along_route(route, s, r)
                ctx.close(np.asarray(p, dtype=float), W.ref_position(lane, rest, r), "along-position", "position along %s at %s" % (route, s), tol=1e-6)
                ctx.ok(abs(W.wrap(float(h) - W.ref_heading(lane, rest))) < 1e-7, "along-heading", "heading along %s at %s" % (route, s))
                ctx.ok(route == keep, "route-consumed", "the route was changed")
                ctx.count("along")
                ctx.count("along_multi", int(hit > 0))
                ctx.seen("along", str(route), s, r)


def units(tier):
    k = 8 if tier == "thorough" else 1
    out = []
    for i in range(2 * k):
        out += [("paths-%d" % i, paths, dict(count=110)), ("lanes-%d" % i, lanes, dict(count=90)), ("connected-%d" % i, connected, dict(count=70)),
                ("next-%d" % i, next_lanes, dict(count=70)), ("plans-%d" % i, plans, dict(count=70)), ("along-%d" % i, along, dict(count=70))]
    return out
