"""What each check runs: generated properties, number of cases per tier."""

HIST_RULE = (
    "A case is a whole simulation: random grid, bucket or blade, repose angle, "
    "iteration limit, buffer and terrain, then a random digging trajectory of "
    "corner moves of at most one cell (one family: two), stepped with "
    "SoilDynamics::Step.  Non-trivial: at least two steps updated the soil and "
    "the body carried soil or the terrain changed.  Other cases are random states "
    "of walls, soil and terrain on which parts of a step are performed; "
    "non-trivial: something changed.")

HIST_TECH = "stateful property-based testing: invariant after every step"
HIST_NOTE = (
    "Random search over whole simulations; finds violations, does not prove "
    "their absence.  Assumes the body stays a few cells inside the grid.")

MODEL_NOTE = (
    "Random search over local configurations against an independent model; "
    "finds violations, does not prove their absence.")

CHECKS = {
    "C01": {
        "src": ["prop_hist.cpp", "prop_parts.cpp", "prop_move.cpp", "model.cpp"],
        "rule": HIST_RULE,
        "technique": HIST_TECH,
        "note": HIST_NOTE,
        "parts": [{"name": "C01.hist", "quick": 30000, "thorough": 400000},
                  {"name": "C01.parts", "quick": 150000, "thorough": 2000000},
                  {"name": "C01.squeeze", "quick": 10000, "thorough": 300000},
                  {"name": "C01.far", "quick": 6000, "thorough": 100000},
                  {"name": "C01.push", "quick": 2000, "thorough": 30000},
                  {"name": "C01.loose", "quick": 200, "thorough": 3000}],
    },
    "C02": {
        "src": ["prop_hist.cpp", "prop_parts.cpp"],
        "rule": HIST_RULE,
        "technique": HIST_TECH,
        "note": HIST_NOTE,
        "parts": [{"name": "C02.hist", "quick": 30000, "thorough": 400000},
                  {"name": "C02.parts", "quick": 150000, "thorough": 2000000}],
    },
    "C03": {
        "src": ["prop_hist.cpp", "prop_parts.cpp"],
        "rule": HIST_RULE,
        "technique": HIST_TECH,
        "note": HIST_NOTE,
        "parts": [{"name": "C03.hist", "quick": 30000, "thorough": 400000},
                  {"name": "C03.parts", "quick": 150000, "thorough": 2000000},
                  {"name": "C03.loose", "quick": 200, "thorough": 3000}],
    },
    "C07": {
        "src": ["prop_relax.cpp", "model.cpp"],
        "rule": ("A case is a pair of columns, a single pass or a whole field on an "
                 "integer lattice; RelaxTerrain is compared with the model of the "
                 "avalanche rule. Non-trivial: the model has an unstable slope to "
                 "relax."),
        "technique": "property-based testing against a whole-cell reference model",
        "note": MODEL_NOTE,
        "parts": [{"name": "C07.pair", "quick": 1000000, "thorough": 5000000},
                  {"name": "C07.pass", "quick": 300000, "thorough": 1000000},
                  {"name": "C07.field", "quick": 300000, "thorough": 1000000}],
    },
    "C08": {
        "src": ["prop_relax.cpp", "model.cpp"],
        "rule": ("A case is a pair of columns, a single pass or a whole field on an "
                 "integer lattice with soil resting on one or two walls; "
                 "RelaxBodySoil is compared with the model. Non-trivial: the model "
                 "has an unstable slope to relax."),
        "technique": "property-based testing against a whole-cell reference model",
        "note": MODEL_NOTE,
        "parts": [{"name": "C08.pair", "quick": 500000, "thorough": 5000000},
                  {"name": "C08.pass", "quick": 100000, "thorough": 1000000},
                  {"name": "C08.field", "quick": 100000, "thorough": 1000000}],
    },
    "C05": {
        "src": ["prop_move.cpp", "model.cpp"],
        "rule": ("A case is a local arrangement of terrain, body intervals and body "
                 "soil on an integer lattice with terrain inside the body; "
                 "MoveIntersectingBody is compared with the model's set of "
                 "admissible results. Non-trivial: a single column is pushed out, or "
                 "at least one cell of soil of a field was moved."),
        "technique": "property-based testing against a whole-cell reference model",
        "note": MODEL_NOTE,
        "parts": [{"name": "C05.single", "quick": 160000, "thorough": 800000},
                  {"name": "C05.field", "quick": 160000, "thorough": 800000},
                  {"name": "C05.far", "quick": 6000, "thorough": 60000}],
    },
    "C06": {
        "src": ["prop_move.cpp", "model.cpp"],
        "rule": ("A case is a lattice arrangement with soil resting on one wall and "
                 "cut by another; MoveIntersectingBodySoil is compared with the "
                 "model for every order of the recorded entries. Non-trivial: a wall "
                 "cuts into at least one column of body soil."),
        "technique": "property-based testing against a whole-cell reference model",
        "note": MODEL_NOTE,
        "parts": [{"name": "C06.few", "quick": 20000, "thorough": 1000000},
                  {"name": "C06.field", "quick": 20000, "thorough": 200000},
                  {"name": "C06.far", "quick": 10000, "thorough": 200000}],
    },
    "C09": {
        "src": ["prop_equil.cpp", "prop_settle.cpp", "model.cpp"],
        "rule": ("A case is a bare terrain relaxed with enough passes, or a digging "
                 "simulation followed by relaxation; whenever equilibrium is "
                 "reported every slope must be below the critical one and a further "
                 "pass must change nothing. Non-trivial: the terrain was unstable at "
                 "first; for simulations, equilibrium was reported at least twice. "
                 "heap: a heap collapses below a hovering body which may move away, "
                 "over as many steps as it takes; non-trivial: it is unstable."),
        "technique": "property-based testing of the equilibrium contract (invariant at the fixed point)",
        "note": MODEL_NOTE,
        "parts": [{"name": "C09.bare", "quick": 150000, "thorough": 1000000},
                  {"name": "C09.sim", "quick": 40000, "thorough": 200000},
                  {"name": "C09.heap", "quick": 8000, "thorough": 60000}],
    },
    "C04": {
        "src": ["prop_body.cpp"],
        "rule": ("A case is a grid, a bucket or blade and one to three poses "
                 "(corners inside the grid); every column of the rasterised body is "
                 "compared with the exact polygons of the walls clipped to that "
                 "column. Non-trivial: at least six columns are occupied by the "
                 "body.  merge: one to six intervals added to a column, against a "
                 "model of the two layers; non-trivial: at least three."),
        "technique": "property-based testing against an exact geometric oracle",
        "note": MODEL_NOTE,
        "parts": [{"name": "C04.raster", "quick": 60000, "thorough": 300000},
                  {"name": "C04.merge", "quick": 300000, "thorough": 3000000}],
    },
    "C11": {
        "src": ["prop_step.cpp"],
        "rule": ("A case is a scene and a walk with moves from 0.02 to 3 cells, with "
                 "returns to former poses; the return value, the warnings and the "
                 "whole state are predicted from exact corner displacements. "
                 "Non-trivial: at least two executed steps, and one refused step or "
                 "one with a warning."),
        "technique": "stateful property-based testing against a model of the step gate",
        "note": MODEL_NOTE,
        "parts": [{"name": "C11.gate", "quick": 60000, "thorough": 300000}],
    },
    "C16": {
        "src": ["prop_step.cpp"],
        "rule": ("A case is a whole simulation that is run again with the same seed, "
                 "resumed from a copy, with different memory contents and unrelated "
                 "calls in between; all outputs must be identical bit by bit. "
                 "Non-trivial: at least three executed steps, and the terrain "
                 "changed or the body carries soil."),
        "technique": "metamorphic testing: repeated and resumed histories",
        "note": MODEL_NOTE,
        "parts": [{"name": "C16.repeat", "quick": 6000, "thorough": 60000}],
    },
    "C24": {
        "src": ["prop_settle.cpp", "model.cpp"],
        "rule": ("limit: a case is a whole simulation each of whose steps is run with "
                 "several iteration limits from the same state and seed; non-trivial: "
                 "at least two updates, one of which relaxed to rest. hover: a body "
                 "over bare terrain, moved vertically; non-trivial: the terrain "
                 "avalanched."),
        "technique": ("metamorphic property-based testing: the same step under other "
                      "iteration limits"),
        "note": ("Random search; finds violations, does not prove their absence. "
                 "Repose angles below half a cell per cell are left out: there no "
                 "whole-cell terrain but the flat one is at rest."),
        "parts": [{"name": "C24.limit", "quick": 8000, "thorough": 100000},
                  {"name": "C24.hover", "quick": 8000, "thorough": 100000}],
    },
    "C25": {
        "src": ["prop_scale.cpp"],
        "rule": ("A case is a whole simulation run twice, with all lengths multiplied "
                 "by a power of two; non-trivial: at least two updates which changed "
                 "the terrain."),
        "technique": ("metamorphic property-based testing: the same simulation in "
                      "another unit of length"),
        "note": ("Random search; finds violations, does not prove their absence. "
                 "The tolerance of the step is scaled like all lengths."),
        "parts": [{"name": "C25.scale", "quick": 12000, "thorough": 120000}],
    },
    "C26": {
        "src": ["prop_scale.cpp"],
        "rule": ("A case is a state, random or met in a simulation, on which parts of a "
                 "step are performed with the walls and their soil stored in either "
                 "order; non-trivial: something changed."),
        "technique": ("metamorphic property-based testing: the same state with its two "
                      "layers swapped"),
        "note": ("Random search; finds violations, does not prove their absence. "
                 "Terrain entering both walls of a cell is left out: it is pushed out "
                 "of them in the order in which they are stored."),
        "parts": [{"name": "C26.layers", "quick": 150000, "thorough": 1500000},
                  {"name": "C26.met", "quick": 4000, "thorough": 40000}],
    },
    "C20": {
        "src": ["prop_step.cpp"],
        "rule": ("A case is a whole simulation; after every step each column away "
                 "from the body needs a cause (a slope above the critical one next "
                 "to it) for its change. Non-trivial: at least two updates with "
                 "columns outside the areas to compare."),
        "technique": "stateful metamorphic testing: everything outside the surroundings is compared before and after",
        "note": MODEL_NOTE,
        "parts": [{"name": "C20.local", "quick": 30000, "thorough": 300000}],
    },
    "C22": {
        "src": ["prop_step.cpp"],
        "rule": ("A case is a whole simulation with small and large moves; after "
                 "every step the body intervals are compared with those of the same "
                 "pose in a fresh state. Non-trivial: at least three updates."),
        "technique": "metamorphic testing: footprint after a history against the footprint alone",
        "note": MODEL_NOTE,
        "parts": [{"name": "C22.path", "quick": 50000, "thorough": 220000}],
    },
    "C10": {
        "src": ["prop_carry.cpp"],
        "rule": ("A case is a body with soil on its walls (constructed freely, or by "
                 "digging) and a new pose; each entry has to arrive at one of the "
                 "places the geometry admits. Non-trivial: at least one column with "
                 "a place free of rounding moved; for simulations, at least three "
                 "columns moved."),
        "technique": "property-based testing against a set-valued reference model",
        "note": MODEL_NOTE,
        "parts": [{"name": "C10.any", "quick": 150000, "thorough": 1000000},
                  {"name": "C10.real", "quick": 20000, "thorough": 100000}],
    },
    "C12": {
        "src": ["prop_types.cpp"],
        "rule": ("A case is a random quaternion or set of angles and vectors, "
                 "identities and gimbal poses included. Non-trivial: the rotation "
                 "turns a vector of substantial length (rotation), two angles are "
                 "not small (angles); every frame round trip."),
        "technique": "property-based testing of algebraic laws against a double precision reference",
        "note": MODEL_NOTE,
        "parts": [{"name": "C12.rotation", "quick": 500000, "thorough": 10000000},
                  {"name": "C12.angles", "quick": 500000, "thorough": 10000000},
                  {"name": "C12.frame", "quick": 200000, "thorough": 4000000}],
    },
    "C13": {
        "src": ["prop_types.cpp"],
        "rule": ("A case is a set of constructor arguments with zero, one or several "
                 "defects (signs, NaN, infinities, orderings, degenerate corners). "
                 "Non-trivial: every construction, each is judged in both directions "
                 "(accepted as given, rejected)."),
        "technique": "property-based testing of acceptance against the documented rules",
        "note": MODEL_NOTE,
        "parts": [{"name": "C13.grid", "quick": 200000, "thorough": 4000000},
                  {"name": "C13.param", "quick": 200000, "thorough": 4000000},
                  {"name": "C13.body", "quick": 200000, "thorough": 4000000}],
    },
    "C14": {
        "src": ["prop_types.cpp"],
        "rule": ("A case is a grid size and resolution, whole cells or not; every "
                 "axis vector is checked. Non-trivial: more than one cell in some "
                 "direction."),
        "technique": "property-based testing of the index-position round trip",
        "note": MODEL_NOTE,
        "parts": [{"name": "C14.axes", "quick": 300000, "thorough": 1000000}],
    },
    "C15": {
        "src": ["prop_init.cpp"],
        "rule": ("A case is a seed and a position, or a whole initial terrain with "
                 "random size, amplitude and seed. Non-trivial: the noise exceeds "
                 "1e-3, or the terrain has more than three different heights."),
        "technique": "differential testing against an independent noise implementation",
        "note": MODEL_NOTE,
        "parts": [{"name": "C15.noise", "quick": 100000, "thorough": 1000000},
                  {"name": "C15.init", "quick": 20000, "thorough": 200000}],
    },
    "C17": {
        "src": ["prop_check.cpp", "model.cpp"],
        "rule": ("A case is a state (constructed or reached by a simulation) checked "
                 "as it is and with a corruption of one cell, column or entry; both "
                 "checks must report exactly what their documentation says. "
                 "Non-trivial: a corruption was injected, or a history with two "
                 "updates and soil on the body."),
        "technique": "fault injection with generated corruptions, and valid histories",
        "note": MODEL_NOTE,
        "parts": [{"name": "C17.corrupt", "quick": 200000, "thorough": 1000000},
                  {"name": "C17.real", "quick": 20000, "thorough": 100000},
                  {"name": "C17.large", "quick": 20000, "thorough": 200000}],
    },
    "C18": {
        "src": ["prop_files.cpp"],
        "rule": ("A case is a state (constructed or simulated) written once or "
                 "several times, among existing files, into a scratch folder and "
                 "parsed back. Non-trivial: soil on the body was written, or files "
                 "existed before."),
        "technique": "round-trip testing of the written files",
        "note": MODEL_NOTE,
        "parts": [{"name": "C18.any", "quick": 20000, "thorough": 200000},
                  {"name": "C18.real", "quick": 3000, "thorough": 30000},
                  {"name": "C18.full", "quick": 64, "thorough": 600}],
    },
    "C21": {
        "src": ["prop_fair.cpp", "model.cpp"],
        "rule": ("A case is a symmetric arrangement run under many seeds; equivalent "
                 "directions must be chosen equally often (4, 5 then 7 standard "
                 "deviations at growing sample sizes). Non-trivial: soil moved "
                 "(order: at least two columns were treated)."),
        "technique": "statistical property-based testing over symmetric scenes, staged to bound false alarms",
        "note": MODEL_NOTE,
        "parts": [{"name": "C21.terrain", "quick": 4000, "thorough": 10000},
                  {"name": "C21.body", "quick": 4000, "thorough": 10000},
                  {"name": "C21.squeeze", "quick": 4000, "thorough": 10000},
                  {"name": "C21.displace", "quick": 4000, "thorough": 10000},
                  {"name": "C21.order", "quick": 400, "thorough": 1000}],
    },
    "C23": {
        "src": ["prop_shift.cpp"],
        "rule": ("A case is a whole simulation with exactly representable "
                 "coordinates, run twice: as it is, and shifted by up to 8 cells "
                 "in each direction and/or in a grid larger by up to 12 cells; "
                 "all states, records and random numbers are compared after every "
                 "step. Non-trivial: at least two updates, the terrain changed and "
                 "the second run really is shifted or larger.  local: arrangements "
                 "of walls, soil and terrain and the parts of a step (carrying, "
                 "pushing out, avalanches) likewise; non-trivial: something changed "
                 "and there are walls."),
        "technique": "metamorphic testing: the same history elsewhere in the grid",
        "note": MODEL_NOTE,
        "parts": [{"name": "C23.shift", "quick": 20000, "thorough": 200000},
                  {"name": "C23.local", "quick": 200000, "thorough": 2000000}],
    },
    "C19": {
        "src": ["prop_safe.cpp", "prop_body.cpp", "prop_carry.cpp", "prop_check.cpp",
                "prop_files.cpp", "prop_init.cpp", "prop_move.cpp", "prop_relax.cpp",
                "prop_step.cpp", "prop_types.cpp", "model.cpp"],
        "rule": ("Everything runs with AddressSanitizer, UndefinedBehaviorSanitizer "
                 "and checked containers. C19.near and C19.wide: a case is a whole "
                 "simulation with extreme settings (two free cells to the border, "
                 "cell ratios up to 20, no iteration, smallest buffer, moves of "
                 "several cells and jumps), non-trivial with at least two updates. "
                 "C19.memory: a "
                 "simulation is repeated and must not keep more memory. C19.Cxx: the cases of another check, of which only crashes, hangs, "
                 "exceptions and sanitizer reports count here; non-trivial by the "
                 "rule of that check."),
        "technique": "fuzzing with structured generators under sanitizers and a CPU-time limit",
        "note": MODEL_NOTE,
        "parts": [{"name": n, "quick": q, "thorough": t, "variant": "asan"}
                  for n, q, t in (
                      ("C19.near", 4000, 40000), ("C19.wide", 4000, 40000),
                      ("C19.C04.raster", 3000, 30000), ("C19.C05.field", 5000, 50000),
                      ("C19.C06.field", 2000, 20000), ("C19.C07.field", 5000, 50000),
                      ("C19.C08.field", 5000, 50000), ("C19.C10.any", 5000, 50000),
                      ("C19.C11.gate", 1500, 15000), ("C19.C12.frame", 10000, 100000),
                      ("C19.C12.angles", 10000, 100000),
                      ("C19.C13.grid", 10000, 100000), ("C19.C13.body", 10000, 100000),
                      ("C19.C14.axes", 5000, 50000), ("C19.C15.init", 1000, 10000),
                      ("C19.C17.corrupt", 5000, 50000), ("C19.C18.any", 1000, 10000))] +
                 [{"name": "C19.memory", "quick": 3000, "thorough": 30000,
                   "src": ["prop_memory.cpp"]}],
    },
}
