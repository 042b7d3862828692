"""Per property: what the evidence says was done, the technique, the level note, the assumptions."""
TRACE = "TLC checks traces recorded from the real code against a TLA+ specification"
GEN = "TLA+ model checked with TLC; its schedules replayed on the real code; recorded traces checked against the specification"
BOUND = "Bounded: random and model-generated inputs/histories of the sizes in the evidence; the verdict on each recorded event is TLC's, from exact integer arithmetic. Trusted: the harness' logging, TLC. "
TOUCH = "touching or nearly touching geometry (within the logged rounding) is left undecided"

META = {
    "C01": dict(what="collision verdicts of the real engine (with and without fail-fast) on random worlds, each decided by exact integer geometry in TLA+ (GeoTrace)",
                technique=TRACE, note=BOUND + "The oracle is exact polygon geometry, independent of quadtree, grid and surrogate.", assumes=[TOUCH, "coordinates up to 64 units"]),
    "C02": dict(what="Engine (abstract) and EngineImpl (quadtree flags, deferred removals, grid cells) checked exhaustively; Engine's schedules and random ones replayed on the real engine, every observation checked by EngineTrace, all kinds of queries also against a freshly built engine",
                technique=GEN, note=BOUND + "The refinement EngineImpl => Engine is exhaustive for 3 hazards and 1-2 snapshots.", assumes=[TOUCH, "hazards inside the engine's bounds", "no two hazards of the same identity at once"]),
    "C03": dict(what="collected collisions of the real engine, decided by exact integer geometry in TLA+ (GeoTrace)", technique=TRACE, note=BOUND, assumes=[TOUCH]),
    "C04": dict(what="poles and piers against their shape, and fail-fast answers against exact geometry (GeoTrace)", technique=TRACE, note=BOUND, assumes=[TOUCH, "piers: shapes centred on their centroid, as the parser hands them over"]),
    "C05": dict(what="broad-phase answers (point, segment, circle; hazards within rectangles, segments, circles) with removals pending, against exact geometry (GeoTrace); the tree itself (QuadTree: presence in nodes, shortcuts, growing and dropping subtrees) checked exhaustively on pixel worlds", technique=TRACE, note=BOUND + "QuadTree is exhaustive for the pixel sets and histories of its configurations.", assumes=[TOUCH]),
    "C06": dict(what="grid values after every step of recorded histories, ruled-out cells and grid coverage, decided by EngineTrace; grid maintenance (EngineImpl) checked exhaustively", technique=GEN, note=BOUND, assumes=[TOUCH, "distances within 4/64 of a unit"]),
    "C07": dict(what="filters, item checks and grid values per quality against the quality rule (GeoTrace)", technique=TRACE, note=BOUND, assumes=[TOUCH]),
    "C08": dict(what="Packing checked exhaustively (conservation, no empty layout); histories of real bin packing problems followed step by step by PackTrace (mode acct)", technique=GEN, note=BOUND, assumes=["layouts are only changed through the problem"]),
    "C09": dict(what="PackGen: the incremental restore of the implementation shown exact for all histories within the bounds; histories of real problems followed by PackTrace (mode restore), engines probed after restores", technique=GEN, note=BOUND, assumes=[TOUCH, "solutions of the same problem"]),
    "C10": dict(what="Strip checked exhaustively; histories of real strip packing problems followed by StripTrace, engines probed after every step", technique=GEN, note=BOUND, assumes=["items within 1/16 of a new edge may be kept or dropped"]),
    "C11": dict(what="Layouts checked exhaustively; histories of real layouts followed by LayoutTrace, engines probed after every step", technique=GEN, note=BOUND, assumes=[TOUCH]),
    "C12": dict(what="solutions of random instances exported, imported and exported again, every placement followed by IoTrace", technique=TRACE, note=BOUND, assumes=["positions within the logged rounding"]),
    "C13": dict(what="random input files parsed by the real parser; every item, bin and strip compared by IoTrace with the file", technique=TRACE, note=BOUND, assumes=[]),
    "C14": dict(what="random polygons simplified by the real code; covering, simplicity and area decided by exact geometry (ShapeTrace)", technique=TRACE, note=BOUND, assumes=["violations of covering below the logged rounding are not seen"]),
    "C15": dict(what="random instances solved by the real optimizer; feasibility of every returned solution decided by exact geometry (LbfTrace)", technique=TRACE, note=BOUND, assumes=[TOUCH]),
    "C16": dict(what="the same instance, configuration and seed solved repeatedly in one process, in other processes and with other numbers of threads; identity of the solutions checked by LbfTrace", technique=TRACE, note=BOUND, assumes=["same machine and binary"]),
    "C17": dict(what="measures and predicates of random primitives and polygons against exact integer geometry (ShapeTrace)", technique=TRACE, note=BOUND, assumes=["up to rounding"]),
    "C18": dict(what="programs of transformation operations followed by the exact group of quarter turns and lattice translations, and by fixed-point rotations (TransfTrace)", technique=GEN, note=BOUND, assumes=["up to rounding"]),
    "C19": dict(what="statistics of problems, solutions, snapshots and exported files along recorded histories, against areas and counts computed in TLA+ (PackTrace and StripTrace, mode stats)", technique=GEN, note=BOUND, assumes=["ratios within 2/10000"]),
    "C20": dict(what="SVG documents produced by the real exporter parsed back, shapes and view box compared with the layout by SvgTrace", technique=TRACE, note=BOUND, assumes=["coordinates up to rounding"]),
    "C21": dict(what="Search (cells, tightening, order of layouts) checked exhaustively; samplers and searches of the real optimizer with growing sample budgets, layout by layout, checked by SearchTrace", technique=GEN, note=BOUND, assumes=[TOUCH, "costs within the logged rounding are not ordered", "the uniform phase draws one placement per sample from the sampler (otherwise only monotonicity is judged)"]),
    "C22": dict(what="Refusal (which requests and data are taken) checked exhaustively as a transition system of unruly callers; requests, shapes, instances and files, allowed or not, put to the real code and the answer compared by RefusalTrace", technique=GEN, note=BOUND, assumes=["a refusal is a panic or an error; what the refused object holds afterwards is unspecified", "checks made in debug builds only are not part of the property", "a repeated handle is one the layout itself issued"]),
    "C23": dict(what="Program (which files a run of the command line program writes) checked exhaustively over histories of runs; histories generated from it run with the real program in a scratch folder, files before and after judged by ProgramTrace", technique=GEN, note=BOUND, assumes=["for a given seed the written solution and drawings are those of the library for the same instance and configuration (what they must be is the subject of C12, C15, C19, C20)", "drawings left behind by an earlier, larger solution are unspecified"]),
}
