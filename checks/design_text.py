HEAD = r"""
# Design

plCurve is a sequential C library: piecewise linear space curves (`plc_*`), link diagrams (`pd_*`), knot classification, random
polygons and ropelength (`octrope_*`). There are no threads and no persistent state other than the files it writes. The behaviours to
explore are therefore *inputs and histories of calls*: every diagram, every curve, every place at which an operation may be asked for, every
sequence of operations, every sequence of random numbers, every torn or damaged file, every argument that crosses an internal threshold.

## Technique

Every property is decided by **explicit-state / stateless model checking of the real code**. For each property a harness in `harness/`
enumerates the whole bounded space (diagrams, curves, texts, histories, scripted random numbers), executes *each* element on the functions
compiled from `/repo`'s working tree, and compares after *each* step with a reference model written independently of the library. There is
no hand model standing in for the code: the transitions explored are calls of the implementation, so every explored trace is
by construction a trace of the implementation ("traces_validated_against_impl" in the evidence counts the model-versus-code comparisons of complete traces).

* *Determinism and control.* All nondeterminism is owned by the harness. Random numbers come from a scripted gsl generator
  (`harness/rngscript.hpp`) whose every output is chosen by the enumeration; time-dependent seeds in the library (rotation before projection) are either
  switched off by the library's own debug switch or replaced by `--wrap` at link time. `exit`, `abort` and `__assert_fail` are wrapped,
  so that an unexpected termination is an outcome which is checked like any other.
* *Memory.* The library is compiled with AddressSanitizer, so memory safety on every explored execution is part of every property. Each case has a CPU limit, so
  termination is too.
* *States.* Harnesses hash the abstract state reached (canonical diagram, list of constraints, store contents, ...) and report distinct
  states; C01, D08 and C15 additionally close the state space under all operations (the frontier becomes empty or a depth bound is hit).
* *Sharding.* A harness numbers its cases; the driver `checks/run.py` runs eight processes on the residue classes, merges their counters and state sets, and
  fails if a shard does not finish. A failing case is run again alone (or, when it depends on the cases before it, the whole shard is) and only a
  reproduced failure is a VIOLATION; the replay file holds the input, the step, the reason and the command that reruns it.
* *Building.* `lib/build.py` compiles `/repo/src` (sources of `src/Makefile.am`) into a cache outside /repo keyed by the contents of the sources
  and headers; nothing reads text of the sources except the compiler, so edits that keep the behaviour keep the verdict.
* *Strided layers.* The deciding layer of each property is a complete enumeration. Where the next size up is too large for a quick run some harnesses add a
  deterministic stride of it ("every 5th height order"); these layers are named in the bounds, and are extra.

Shared machinery:

| file | what it is |
|---|---|
| `harness/mc.h` | case numbering, sharding, counters, distinct-state sets, wrapped exit/abort/assert, failure records |
| `harness/pdgen.hpp` | enumerator of all connected planar 4-valent maps (rotation systems of genus 0) with n crossings up to isomorphism, all orientations, signs, tags and edge labellings |
| `harness/pdmodel.hpp` | dart model of a diagram: validity of a pd_code_t from the definition, faces, components, isotopy, reference Reidemeister moves, HOMFLY by skein recursion |
| `harness/tangle.hpp` | all simple closed curves in the plane of a map and the tangles they cut out, slides on the dart model |
| `harness/geom.hpp`, `harness/curve.hpp` | lattice points, exact integer predicates, value model of a curve (components, colours, constraints) |
| `harness/triang.hpp` | all triangulations of an n-gon, reference embedding of action-angle coordinates |
| `harness/rolfsen.hpp`, `harness/latexpoly.hpp` | reference knot table; independent reading of polynomial text |
| `harness/rngscript.hpp` | gsl random number generator whose outputs are the enumerated word |

## Properties

D: diagrams, C: curves. Costs are those of one run on the 8 core sandbox (`checks/cost.json`).
"""
GROUPS = [
 ("Diagram operations", ["D01","D02","D13","D12","D20","D14","D15"]),
 ("Diagram structure and text", ["D11","D16","D03","D04","D05","D19"]),
 ("Equivalence, hashing, storage", ["D06","D07","D08","D21","D22","D24"]),
 ("Invariants and classification", ["D09","D10","D17","D18","D23"]),
 ("Curves", ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10"]),
 ("Ropelength", ["C11","C12","C18"]),
 ("Random polygons", ["C13","C14","C15","C16","C19"]),
 ("Curves in any dimension", ["C17"]),
]
ORACLE = {
"D01": "the move carried out on the dart model (pure combinatorics, no library code); the result must be isotopic to it with the same tags, orientations and signs; HOMFLY of input and output are compared as a second, independent oracle; validity of the returned record is checked from the definition, and the input must be untouched.",
"D02": "monogons removed on the dart model until none is left (the result does not depend on the order), compared with tags, signs and orientations; HOMFLY of input and output by skein recursion; a second simplification must be the identity.",
"D03": "an independent writer and reader of the native, KnotTheory and C formats; byte comparison of what is written, isotopy and exact record comparison of what is read, with white space, missing optional parts and shuffled crossings.",
"D04": "an independent reading of the damaged text decides whether it still denotes a valid diagram; the library must refuse it or return a record valid by definition and equal to that diagram; exit, crash, hang and silent nonsense are failures.",
"D05": "unpack(pack(x)) compared field by field; bit codec compared with integer arithmetic; sizes around every field-width threshold.",
"D06": "isomorphisms found by brute force on darts (every image of one dart, both orientations); the library's lists must be exactly these, without repetition, and its verdicts must follow.",
"D07": "equality of hashes over the whole isomorphism class; the reference class is generated by relabelling, reversing and mirroring on darts.",
"D24": "the multiset (or the set modulo brute-force isotopy) of the diagrams put into the input files, connected sums built by dart surgery, automorphism counts by brute force; the remaining computed columns and the C text are compared with the library functions D03, D09 and D10 check. Every tool is its real main(), run in a process of its own in a scratch directory.",
"D08": "a set model modulo the chosen equivalence (brute-force isotopy); after every operation counts, search results, iteration order/completeness and written files are compared; files cut at every byte must be refused or read as the store they say they hold.",
"D09": "HOMFLY by skein recursion on darts to descending diagrams, closed forms for (2,n) torus links, multiplicativity on chains; every relabelling, rotation and mirror image.",
"D10": "sums over crossings straight from the definitions on the dart model; Gauss words for interlacement.",
"D11": "dart model: successor, faces left and right of an edge, positions of the four ends at a crossing, over/under from the sign.",
"D12": "value model of a diagram with named edges: after each operation of a history the record must be valid, equal to the model, and all earlier copies unchanged.",
"D13": "splice on darts, and multiplicativity of HOMFLY.",
"D14": "flood fill on the dart model inside the closed curve; strands walked from boundary to boundary; damaged boundaries must be refused without abort when an error flag is given.",
"D15": "the slide carried out on darts; pieces compared by isotopy, HOMFLY of input and output compared; illegal runs must be refused.",
"D16": "the diagram the naming was made from, through the naming; canonical order of faces, components and crossings checked from the definition.",
"D17": "exact integer projection: crossing pairs and heights of segments, walked to a diagram on darts, compared by isotopy; where three strands meet, the linking number/HOMFLY of a perturbed exact projection.",
"D18": "reference diagrams of all 249 prime knots to 10 crossings with the library's own tables distrusted: HOMFLY from the skein recursion decides which table entries must be returned, each exactly once.",
"D19": "recognition by structure (component count, crossing count, isotopy to a diagram built on darts) and closed-form HOMFLY or linking numbers, at every size.",
"D20": "connected components of the union on darts, in every interleaving of crossings and components; each returned piece must be isotopic to one summand with its tags, signs and orientations.",
"D21": "factorials and group tables: every element exactly once, composition/inverse/order from the definition on the maps.",
"D22": "std::vector and std::set; memory accesses under ASAN.",
"D23": "polynomials as maps from exponents to coefficients, with an independent parser of each text form.",
"C01": "a map from vertex to constraint; the list must be its unique run-length form (sorted, disjoint, maximal runs); closure over all operations, so histories of every length.",
"C02": "value model of a curve; files compared number by number after an independent parse.",
"C03": "an independent parser of the format decides which damaged files still denote a curve; result must be refusal with an error number or a valid curve equal to it.",
"C04": "value model (components of points, colours, constraints) after each edit.",
"C05": "the definition with long double arithmetic; signed and degenerate cases.",
"C06": "matrices acting on the value model; the Whitten group as its own multiplication table.",
"C07": "integer/rational arithmetic on lattice vectors; angles from long double functions.",
"C08": "linear scan; the same query through a precomputation handle, fresh and reused, must agree.",
"C09": "group elements as matrices generated independently; vertex matching by distance; orbit averages; histories with the rule (copied, conjugated, dropped) for the group.",
"C10": "C2 cubic interpolant from dense elimination on the slopes; values and derivatives at every node, samples in every cell.",
"C18": "the brute-force struts and minrads of C11 at every cutoff, definitions of length, curvature and diameter, edge lengths and distances of the polygons read back; the knot classifier is a stand-in that answers every list of types in turn, and exactly the matching polygons must be kept.",
"C11": "all pairs of edges with closest points of two segments from the definition; all vertices for minrad; the octree must change nothing.",
"C12": "independent parser of the strut file format.",
"C13": "shape conditions (closure, edge lengths, confinement, self-avoidance) on every output; full grids for the pushforward measure of the random numbers.",
"C14": "all triangulations enumerated recursively; embedding recomputed from lengths and dihedral angles; round trips; printed forms parsed independently.",
"C15": "polygon-space conditions after every step of all short histories; the moment polytope inequalities; drivers replayed step by step with the same random word, averages recomputed from the polygons shown to the callback.",
"C19": "a scripted generator walks the whole tree of random choices; the weight of every leaf is the product of the exact Eulerian probabilities, each threshold approached to 1e-9 from both sides; the weights of the leaves of one permutation must add up to 1/E(n,k); hypersimplex points against Stanley's map applied to the same draws",
"C16": "exact rational covariances; the initial positive sequence rule; every partition of the run over buffers must give one of the admissible estimates.",
"C17": "the definitions evaluated in long double on plain vectors; the layout written is the layout read; a damaged file has an error code or gives a curve whose wraparound and sizes are consistent; bytes allocated before and after.",
}
TAIL = r"""
## What the exploration found

Every genuine defect found was small enough to repair; each is one `fix:` commit in /repo, listed in `known_findings.txt` as
`fixed: property=... commit ...`. There are no unrepaired known findings. The spread (number of repairs per property) is in `checks/fixmap.txt`. Among the heavier ones: over/under strand queries and
sign handling in moves and slides, isomorphism lists with repeated or missing elements, stores that lost elements on a torn file, readers that ran
past the end of damaged files, constraint lists that were not maps after particular histories, classification returning wrong
composites, and memory errors on particular sizes.

### False alarms that were corrected in the machinery

* D19: a comment in `pd_build_wye` says that hashes of wyes with the same number of crossings agree. They do not and nothing relies on it; the comparison was dropped.
* C15: requiring congruence after permuting the edges into a flat or zero-diagonal triangle, and "at least three shapes" on the same, was too strong: the coordinates lose information exactly there. The check excludes these polygons.
* D17: crossingless components of multi-component links are outside the documented domain of `pd_code_from_plCurve` (it exits); polygons which project that way are skipped.
* D14/D15: a boundary that passes the same edge twice is not a tangle by the header; such curves are used only as damaged input.

## Limits

* Bounds are stated per property; beyond them nothing is claimed. Floating point checks use tolerances stated in the harness (usually 1e-9 relative, looser where the algorithm iterates).
* `kascentpermutation.c` needs `naptable.h`, which is not in the repository; C19 supplies the table (exact Eulerian ratios, in the layout the source documents), so the table's own numbers are not checked.
* Not covered: sources not built into the libraries (`plc_xoshiro.c`, `momentpolytope.c`, `pd_avl.c`);
  the command line programs; the SWIG/Python wrappers (no generator here); vendored `planarity`, `planarmap` and `Judy`.
* The library documents limits which the enumeration respects: at most 63 components for the store, lmpoly up to 250 crossings and exponential time on large
  torus links, buffers of at least 2 lags for error bars, `plc_circumcenter` in the plane only, R2 addition on two different edges only.
* `pd_error` prints and exits when PD_VERBOSE > 0; the checks run with 0 (library use).
* Memory exhaustion (failing malloc) is not explored: the library's allocation wrappers exit.

Nothing in the property list is out of reach of this technique, so `not_applicable` is empty.

## Planted bugs

`seeded/<id>/` holds changes written from the property text and the code. All were confirmed to compile, to pass the 131 tests and to fail their demo. Checks that catch them:

SEEDED_TABLE

In addition a mutation campaign (single-statement mutants of every library source: operator and constant replacements, swapped neighbours,
deleted statements; only those that compile) was run against the quick checks mapped to each file. Survivors were judged one by one: equivalent (no observable change), outside the
documented domain, or a gap; gaps were closed by extending the harness.
"""
