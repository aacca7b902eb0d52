"""Write DESIGN.md: the hand-written text below, the workload of each check (its RULE), the table of repairs, findings and planted bugs."""
import importlib
import json
import os
import sys
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault("SDL_VIDEODRIVER", "offscreen")

INTRO = """# Runtime monitoring of highway-env

(Generated by `tools/gen_design.py`; edit the text there.)

highway-env is a single-threaded Python simulator: no memory-safety or data-race question arises in its own code, so compiler sanitizers and race detectors have nothing to look at (numpy and pygame
are pre-built wheels). What remains of the family is exactly what its users need: **monitors and reference oracles watching real executions**. Every property C01-C33 is decided that way; none is
listed as not applicable. The level is "exploration" for all: a check shows that the property held on the executions it observed, whose number and variety is in the evidence file.

## How it works

* `run.py Cxx` is every check. It imports `highway_env` from `/repo` (or `HM_REPO`), splits the workload of `hm/checks/Cxx.py` in *units*, forks one process per unit (at most one per core), and merges
  their observations, counters and violations. A unit draws everything from one generator seeded by VERIF_SEED, the property and its name, so that a run is reproducible (PYTHONHASHSEED is pinned where
  it matters and varied in C01, where it is the subject).
* Instrumentation is attached from outside: `hm/world.py: tap()` wraps `act`/`step` of road instances, checks wrap the `act`, `step`, `step_simulation`, `_reward`, `observe`, … of the *instances* they
  watch. No hook was needed in /repo (MANIFEST has no `hooks`); the repository carries only `fix:` commits of mine.
* The oracle is a *second implementation* written from the documentation (docs/, docstrings) and, where these are silent, from the published behaviour of the code, independent in structure of the code
  under test: rectangle overlap by separating axes over explicit corners, lane coordinates by trigonometry on lane parameters, shortest paths by breadth-first layers, driver models as plain formulas,
  frames by sampling pixels at projected positions, interval sets by sampled members, copies by structural comparison of everything reachable (`snap`/`flat`/`first_diff`).
* A **case that throws** is a violation if the exception comes from highway_env on supported input (`ctx.guard`), and a harness error (exit 3) otherwise.
* **Ties and thresholds.** Where a discontinuous predicate is within a stated margin of its threshold (1e-6 for geometry, 2 px for frames, …) the case is skipped and counted, so that rewrites which
  change rounding stay quiet. Continuous quantities are compared with tolerances well above rounding and far below any realistic change.
* **Non-vacuity.** Each check has REQUIRED counters (how often each interesting situation was actually observed: e.g. "an ongoing change was aborted", "an action outside the box was clipped"). If one
  falls short the run ends as INCONCLUSIVE (exit 3), never silently green; thresholds are at most two thirds of what ten seeds reach.
* **Evidence**: number of cases and distinct cases (content hashes), all counters, asserts evaluated per mechanism, samples, duration. **Replay**: each violation is written to `/verif/replays/*.json`
  (property, unit, seed, case) and `run.py Cxx --replay FILE` runs it again.
* The quick tier repeats the cheap units in several rounds (`ROUNDS` in `hm/core.py`), each with its own random stream derived from `VERIF_SEED`, so that rare combinations are met on every change.
* `VERIF_TIER=thorough` uses the same monitors with 4-30 times the workload (more episodes, longer horizons, more shards).
* **Known findings** (`known_findings.json`) are matched on property, mechanism and unit; anything else still is a violation.

"""

# id: (oracle / what is monitored, why beyond tests, what is not claimed)
P = {
"C01": ("Full traces (every observation, reward, flag, info, vehicle field) compared bit for bit between a reference played alone in a fresh child process and the same episode after or amid other activity, or under another string-hash seed (`hm/c01_child.py`).",
        "Tests run a few environments once; leaks through class attributes, shared generators, hash order or leftovers of earlier episodes need histories.",
        "Different machines or numpy versions are out of reach."),
"C02": ("`snap()` (all reachable state, random generator included) of copy and original after the same actions; snapshots of one while the other is stepped, reset or edited; identity walk over everything reachable from each side for shared mutable objects.",
        "No test copies an environment mid-episode and compares the futures.",
        "Copying an environment with an attached viewer shares the viewer by design (`__deepcopy__`); only its being left alone is checked."),
"C03": ("The original is snapshotted before and after each transformation; the result is matched vehicle by vehicle with its source against the documented edit and nothing else; the result is then stepped.",
        "Tests apply two transformations to one scene without looking at the result.", ""),
"C04": ("Space membership and constant shape of every observation, acceptance of every action until the episode ends, number of entries per agent, rejection of unknown type names, for every registered id and random configurations.",
        "Tests step two environments with default observations.",
        "TimeToCollision needs a speed-indexed vehicle and is not driven with continuous actions; more than 4 agents at the intersection and more than 15 summon vehicles are unsupported by construction (documented lists of that length)."),
"C05": ("The rows are recomputed from the vehicles' true states by an independent neighbour search, with the documented default ranges and mapping.",
        "The one test checks the shape.", "Ranges follow the first observation of the environment, as the code does (recorded in the property)."),
"C06": ("Each cell recomputed from the positions; several vehicles in one cell accept either; borders within 1e-6 accept either cell.", "No test reads a grid.", ""),
"C07": ("Grid, window and MDP (transition, reward and terminal tables) recomputed from constant-speed predictions with both roundings of the time.", "One test checks one grid.",
        "Meeting vehicles with relative speed below 0.01 m/s (where the code's not_zero guard dominates) are skipped; the code's 'at least 0.5' partial overlap is a lower bound."),
"C08": ("Pixel-by-pixel comparison with the luminance of the frame of the environment's viewer and of a freshly built one, stack history, and immutability of returned arrays.", "One test looks at the shape.", "SDL_VIDEODRIVER=dummy disables drawing (black frames), so offscreen is used."),
"C09": ("Twin runs with and without rendering activity compared bit for bit; frames sampled at projected interior points of bodies, objects and line markings; displayed trajectories compared with executed ones; frames asked for after steps, resets and in callbacks compared with those of a viewer made that moment.",
        "Tests render one frame.", "A body whose centre is more than 50 px outside the frame counts as not visible (the display culls it, which shows only at high zoom). Anti-aliased borders (2 px) and covered bodies are skipped; non-square objects are drawn off-centre by the published code and only sampled at their centre. Recorded history speed may differ on the frame of a collision."),
"C10": ("Separating-axis overlap of explicit corners for each pair at each road step decides who must be crashed/hit, with speeds before and after; crashed vehicles followed until they stop.",
        "Tests touch two or three poses.", "Poses within 1e-6 of contact skipped. IntervalVehicles have their own rule (C29)."),
"C11": ("Pre-state, command and step recorded around each real `step`; the post-state recomputed by the documented bicycle equations.", "One test integrates a straight line.", "`Vehicle.act` keeps the caller's dict by reference (published behaviour)."),
"C12": ("Derivative recomputed from tyre forces; step = derivative × dt; linearisation against central finite differences of that derivative; parametric matrices against the linearisation.", "One test steps it once.", "Reverse driving is excluded (the model's slip angles are undefined for it)."),
"C13": ("Own trigonometric lane model; round trips, headings against numerical differentiation, predicates against coordinates.", "Tests check a handful of points.", "Circular lanes: round trip claimed for arcs shorter than half a turn."),
"C14": ("Breadth-first reference for paths, brute-force for closest lane, connection and next lane; routes walked lane by lane.", "One test on one network.", "Equal-length shortest paths: any is accepted."),
"C15": ("Brute-force neighbour search over all vehicles and objects.", "Not tested.", "Ties within 1e-6 skipped."),
"C16": ("Commands recomputed at every act by the documented cascade; convergence runs checked for settling, overshoot of the road and steady error; lane hand-over at lane ends against the reference next lane.", "Tests cover one lane change at one speed.", "Convergence is claimed at ordinary speeds (cascade gains), not below 2 m/s."),
"C17": ("A model of targets is advanced beside the vehicle at each decision; available actions recomputed; one effect per decision.", "Not tested beyond one manoeuvre.", "Two known findings (availability uses the target speed, the action the current speed)."),
"C18": ("The command executed at each frame is compared with the linear map of the action given to the environment.", "Tests run one default action.", "Extrapolation holds when clipping is off."),
"C19": ("Acceleration recomputed at each act; free-road runs for overshoot, platoon runs for collision, order and backing.", "One test stops before one obstacle.", "Platoon safety is claimed from safe gaps on a single lane (the model's regime)."),
"C20": ("Each act: lane-change decision recomputed with MOBIL from the poses before it, with the monitor's own clock; both directions (must / must not).", "Not tested.", "Ties within 1e-6 skipped; drivers past their lane's end skip."),
"C21": ("Commands, features and stored data recomputed at each act; ranges, independence and spread of randomised parameters; class attributes unchanged.", "Two tests check stopping.", ""),
"C22": ("Pairwise conflicts recomputed from reference constant-speed predictions at each regulation instant; who yields, for how long, who resumes, who is left alone.", "One test runs an episode.", "Plain (non-controlled) vehicles on a regulated road are unsupported; conflicts within the margin of the distance threshold are skipped."),
"C23": ("Reward recomputed from documented terms at each step, with relocated vehicles and a counterfactual crash.", "Tests ignore rewards.", "The parking reward's published formula is −(Σ wᵢ|xᵢ|)^p as coded; docs write Σ|wᵢxᵢ|^p; the code's is taken. Range exceptions on the merge ramp are known findings."),
"C24": ("All acts, steps and clocks recorded through a policy step: order, number, dt, early stop, terminal cause, info fields.", "Tests only run steps.", "After an early terminal break, further steps act only when the frame counter is a multiple of the period (published). LaneKeepingEnv has its own loop (observes before simulating, does not count steps)."),
"C25": ("Goal dict, reward function (vectorised and scalar), success and termination recomputed; reward function called with other inputs to show it depends on nothing else.", "Not tested.", ""),
"C26": ("After each reset the scene is compared with the request; each simulation step: identity of vehicles, lane = closest lane, spawning and clearing; pairs of environments: shared objects and class parameters.", "Not tested.", "Summon traffic may start past its lane's end (best effort); the intersection-parameter leak is a known finding."),
"C27": ("Results of interval operations against sampled and vertex members; tightness where claimed; operands unchanged.", "One test multiplies one pair.", "Coordinate conversions are claimed on straight lanes."),
"C28": ("Members of the uncertain system simulated beside the predictor under random, extremal and adversarial parameters and disturbances.", "One test draws a figure.", "Step sizes in the stable range; nominal initial state inside the interval."),
"C29": ("Drivers of the family simulated beside the interval vehicle; robust collision against a dense cover of the possible positions.", "One test draws a figure.", "Predictor on curves, lane changes or at low speed; partial observer's speed with a leader or in other orientations (heuristic by design: speed at the box boundary only); boxes only near the lane centre. `longitudinal_structure` tests `d !=` where `>` seems meant; making it strict makes the predictor blow up, so it is left and the predictor is claimed on free roads. Leader stepped first: known finding."),
"C30": ("Least-squares recomputed; confidence ellipsoid sampled; polytope membership by linear algebra; route hypotheses recomputed from the network at each decision.", "One test runs it once.", "Probability of the confidence region: the true parameter lies in it for bounded noise."),
"C31": ("Events posted to the real viewer; the effect on action/targets compared with the mapping; everything else must be unchanged.", "Not tested.", "MultiAgentAction is not keyboard-driven."),
"C33": ("Before each step the vehicle is shadowed; the observation is compared with the shadow's lateral state and the reference model's derivative under the mapped steering; residuals of each episode are judged for range, bias and dependence; current lane modelled; stored states compared again at the end.", "Not tested: the observation space is unbounded.", "Derivatives are those of the bicycle model (C12). Attributes that exist only after the first reset (trajectory) are not claimed."),
"C32": ("Prediction, then real execution on a copy, sample by sample; constant-speed prediction against a walk along the route.", "Not tested.", "Constant-speed predictions are not claimed off the planned route."),
}

LEFT = """## Behaviour noticed and left alone

* `IDMVehicle.maximum_speed` recurses for ever and `recover_from_stop` is unreachable (dead code, called by nobody).
* `env.close()` sets `done = True`; intersection agents beyond the fourth start on top of the first ones; `AttributesObservation` does not call `super().__init__`.
* The intersection clears and spawns vehicles after observing, so a new vehicle appears in the next observation.
* `LaneKeepingEnv.step` observes before simulating and does not advance `steps`; its duration therefore never ends the episode (its `_is_terminal` says False).
* `IntervalVehicle.longitudinal_structure` (see C29); the partial observer's speed bound with a leader.
* Off-road termination, rewards and formulas are taken as coded when docs and code disagree only in notation (parking reward).

## Alarms that turned out to be the check's fault

Corrected in the check or the property text, never silenced: sampling a member of a rotated interval outside the interval; border cells of grids when two vehicles share a border; neighbour order under
ties; the time-to-collision margin at relative speeds under the `not_zero` guard; the steering of drivers taken as linear in predictor mode (now 2e-3); observers claimed for members far from the lane centre
(their slip is only covered by the noise term near it); the closest lane at the ±π seam; frames sampled under a later drawn body; flaky counters (margins widened after sweeps over ten seeds).

"""


def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    kf = json.load(open(V + "/known_findings.json"))
    seeds = json.load(open(V + "/tools/seed_results.json"))
    out = [INTRO, "## Properties\n"]
    for p in props:
        i = p["id"]
        m = importlib.import_module("hm.checks." + i)
        o, t, n = P[i]
        wall = ""
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("* **Workload**: %s.\n* **Monitor and oracle**: %s\n* **Beyond the tests**: %s" % (m.RULE.rstrip("."), o, t))
        if n:
            out.append("* **Limits**: %s" % n)
        out.append("* **Must be observed** (quick tier): %s." % ", ".join("%s %d" % kv for kv in m.REQUIRED.items()))
        f = [x for x in kf["fixed"] if "property=%s " % i in x]
        if f:
            out.append("* **Defects found and repaired**: %s." % "; ".join(x.split(" ", 2)[2] for x in f))
        f = [x for x in kf["findings"] if x["property"] == i]
        if f:
            out.append("* **Known findings**: %s." % "; ".join(x["what"] for x in f))
        s = [k for k in seeds if i in seeds[k]["property"].split(",")]
        if s:
            out.append("* **Planted bugs**: %s." % ", ".join("%s (%s)" % (k, "caught" if any(r.startswith(i + " rc=1") for r in seeds[k]["results"]) else "not caught by this check") for k in s))
        out.append("")
    out.append("Cost: a quick check takes %s on 8 cores (12 s on average); thorough ones one to ten minutes. A check is cut softly (fewer cases, then INCONCLUSIVE if a counter falls short) on much slower machines.\n" % "5 to 45 s")
    out.append(LEFT)
    out.append("## Planted bugs\n\nSources in `tools/seeds_src.py`, built and confirmed by `tools/seed.py` (patch applies, stable tests pass, demonstration passes without and fails with it). Each was written from the property "
               "and the code; those first missed (c14-route-depth, c14-side-forbidden, c18-policy-period, c21-range-drift, c26-clear-agent, c26-spawn-near-agent, c28-nominal-late, c29-forgotten-ranges, …) led to "
               "stronger workloads. Independently, `tools/mutate.py` runs ~250 mechanical mutants (`mutants1.py`, `mutants2.py`) against the checks.\n\n| planted bug | needs | caught by |\n|---|---|---|")
    for k, v in seeds.items():
        out.append("| %s | %s | %s |" % (k, v["needs"], ", ".join("%s (%s)" % (r.split()[0], ", ".join(r.split()[2:5])) for r in v["results"] if "rc=1" in r) or "-"))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")


main()
