"""The properties, how each is checked, and the bounds.  checks/gen.py writes properties.jsonl and MANIFEST.json from here."""
PROPS = {}
def P(id, title, statement, over, text, why, files, mech, parts, bounds, assumptions=(), note="", technique=None, observe=None):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, parts=parts,
                     bounds=bounds, assumptions=list(assumptions), note=note, technique=technique, observe=observe)

LIB = ["libplCurve sources of src/Makefile.am compiled with gcc -O1 and AddressSanitizer",
       "floating point as gcc compiles it on this x86-64 machine"]
DIAG = LIB + ["diagrams are generated by an independent enumerator of connected planar 4-valent maps; the component tags and edge labellings are those the header documents as valid"]

P("D01", "Reidemeister moves are exact and preserve the link",
  "Each Reidemeister move (loop deletion/addition, bigon deletion/addition, triangle flip), applied at any legal place of any valid diagram, returns valid diagram(s) that are exactly the result of that move: same link type, same component tags where the move keeps them, signs and orientations carried along. The input diagram is never modified, and a move requested at an illegal place is refused rather than producing a wrong diagram.",
  ["inputs"], "all diagrams, all crossings/faces/edge pairs at which a move may be requested, all over/under choices",
  "the number of diagrams times move sites is unbounded; tests fix a handful of hand-drawn pictures",
  ["src/pd_crossingmoves.c", "src/plcTopology.c"],
  [("loop and bigon deletion", "src/pd_crossingmoves.c: pd_R1_loopdeletion, pd_R2_bigon_elimination"), ("loop and bigon addition", "src/pd_crossingmoves.c: pd_R1_loop_addition, pd_R2_bigon_addition"), ("triangle flip", "src/pd_crossingmoves.c: pd_R3_triangle_flip")],
  [dict(harness="D01")],
  {"quick": "every connected planar diagram with <=3 crossings (all orientations, all sign patterns, unset and mixed signs), every labelling for <=2 crossings, every move site; every map with 4-5 crossings with fixed sign patterns", "thorough": "one crossing more in each family"}, DIAG)

P("D02", "Simplification preserves the link and reaches a reduced diagram",
  "Simplifying any valid diagram returns a valid diagram of the same link, exactly the input with every loop (monogon) removed until none remains: component tags, orientations and signs are kept, simplifying again changes nothing. The input diagram is not modified.",
  ["inputs"], "all diagrams, hence all histories of eliminations the simplifier can take", "simplification follows a different chain of moves on each input; tests simplify a few fixed diagrams",
  ["src/pd_simplify.c", "src/pd_crossingmoves.c"], [("simplify driver", "src/pd_simplify.c: pd_simplify")],
  [dict(harness="D02")], {"quick": "every signed diagram with <=4 crossings, every 5-crossing map with fixed sign patterns", "thorough": "every signed diagram with <=5 crossings, every 6-crossing map with fixed sign patterns"}, DIAG)

P("D10", "Crossing counts, linking numbers and alternation are exact",
  "For every valid diagram, the reported linking number of each pair of components, the interlaced-crossing counts and the alternating/non-alternating verdict equal the values computed from the definition, independently of edge labelling, and the query leaves the diagram unchanged.",
  ["inputs"], "all signed diagrams, all pairs of components, all labellings", "each value is a sum over crossings whose wrong terms cancel on the symmetric diagrams used in tests",
  ["src/pd_invariants.c", "src/plcTopology.c"], [("linking number", "src/plcTopology.c: pd_linking_number"), ("interlacement", "src/pd_invariants.c: pd_interlaced_crossings"), ("alternation", "src/pdcode.c: pd_is_alternating")],
  [dict(harness="D10")], {"quick": "every signed diagram with <=4 crossings in every orientation, every labelling for <=3 crossings", "thorough": "every signed diagram with <=5 crossings"}, DIAG)

P("D11", "Walking a diagram is consistent",
  "On every valid diagram, next/previous edge, the faces beside an edge, the component and position of an edge, and the over/under strand queries at every crossing agree with the diagram's planar structure: walking forward then back returns to the start, each component walk visits exactly its edges, and the over and under strands follow from the crossing's sign and edge directions.",
  ["inputs"], "all diagrams, edges and crossings", "the queries interact with edge orientation, repeated edges at a crossing and signs; tests look at single positions",
  ["src/plcTopology.c", "src/pd_crossingmoves.c"], [("edge walk", "src/pdcode.c: pd_next_edge, pd_previous_edge"), ("strand queries", "src/plcTopology.c: pd_overstrand, pd_understrand, pd_overstrand_pos, pd_understrand_pos"), ("edge position", "src/pdcode.c: pd_component_and_pos, pd_face_and_pos")],
  [dict(harness="D11")], {"quick": "every diagram with <=3 crossings (all orientations and signs), every labelling, every edge and crossing; maps up to 6 crossings", "thorough": "one crossing more"}, DIAG)

P("D12", "Copying, reversing and renumbering a diagram are faithful",
  "Under every history of copying, resizing copies, reversing components and cyclically renumbering a component's edges, the diagram stays valid and represents exactly the expected diagram: copies are equal and independent of the original, reversing a component flips exactly the signs of its crossings with other components, and renumbering adds the offset cyclically to that component's edge numbers.",
  ["histories", "inputs"], "all operation histories on all diagrams", "errors such as a lost sign or tag only show after particular combinations of operations on particular shapes",
  ["src/pd_operations.c", "src/pdcode.c", "src/pd_isomorphisms.c", "src/plcTopology.c"], [("reorient/renumber", "src/pd_operations.c: pd_reorient_component, pd_renumber_component"), ("copy", "src/pdcode.c: pd_copy, pd_copy_newsize"), ("edge relabelling", "src/pd_isomorphisms.c: pd_apply_edgemap")],
  [dict(harness="D12")], {"quick": "all histories of length 3 (<=2 crossings) or 2 (3 crossings) over every diagram and every labelling; single operations and long fixed histories on every map with 4-6 crossings", "thorough": "histories of length 2 on every 4-crossing diagram too; maps up to 7 crossings"}, DIAG)

P("D13", "Connect sum joins exactly the two given edges",
  "The connect sum of any two valid diagrams at any pair of edges is a valid diagram with the sum of the crossings and one component fewer than the total, in which the two chosen edges are spliced along their orientations and everything else is inherited; its HOMFLY polynomial is the product of the operands', the 0-crossing unknot is the identity, and neither operand is modified.",
  ["inputs"], "all pairs of diagrams and all pairs of edges", "the splice depends on where the edges lie in multi-component operands; tests join a few knots",
  ["src/pd_crossingmoves.c"], [("connect sum", "src/pd_crossingmoves.c: pd_connect_sum")],
  [dict(harness="D13")], {"quick": "every ordered pair of diagrams with together <=5 crossings (all orientations and sign patterns), every edge pair; every 4-crossing map with every 3-crossing map", "thorough": "together <=6 crossings"}, DIAG)

P("D14", "A tangle is recovered exactly from its boundary",
  "Given any simple closed curve in the plane of a diagram as its cycle of distinct edges and faces, the tangle it cuts out is recovered exactly: the boundary orientation of every edge, the interior crossings, the interior edges (including closed components inside), and the strands with their start, end, length and component. The diagram is unchanged and the result passes the tangle consistency check pd_tangle_ok, which refuses it as soon as one boundary edge, orientation, count or strand field is altered, a face does not touch its edges, or an interior list is out of order or range.",
  ["inputs"], "all diagrams, all simple closed curves in them from every starting edge", "interior components, kinks and faces visited twice appear only for particular curves; tests hold a few hand-made tangles",
  ["src/pd_tangles.c"], [("regeneration", "src/pd_tangles.c: pd_regenerate_tangle_err"), ("boundary orientation", "src/pd_tangles.c: pd_tangle_bdy_or"), ("consistency", "src/pd_tangles.c: pd_tangle_ok")],
  [dict(harness="D14",deep=True)], {"quick": "every tangle of every diagram with <=4 crossings (all orientations), with up to 8 boundary edges for 5 crossings and for one orientation of every 6-crossing map; all labellings for <=3 crossings", "thorough": "6 crossings with all orientations, 7-crossing maps"}, DIAG)

P("D15", "A tangle slide moves exactly the given run past the tangle",
  "Sliding a run of edges over or under a tangle, along the edges and faces given, yields the pieces of exactly the diagram in which the run's old crossings are gone and the run passes the remaining boundary edges on the same side (over or under), with all other crossings, signs, component tags and orientations inherited; so the link type is preserved. A run that is mixed over and under, meets a crossing twice, or starts or ends inside the tangle or on itself is refused with the tangle error. The diagram given is never modified.",
  ["inputs"], "all diagrams, tangles, runs of either side, over and under", "the run, the tangle and arcs joining them outside interact; the few hand-made test slides have none of those coincidences",
  ["src/pd_tangles.c", "src/pd_deletions.c", "src/pd_splitdiagram.c"], [("slide", "src/pd_tangles.c: pd_tangle_slide_err, pdint_check_tslide_data_ok_and_find_te"), ("deletion", "src/pd_deletions.c: pd_crossing_delete, pd_edge_delete")],
  [dict(harness="D15",deep=True)], {"quick": "every slide of every tangle of every signed diagram with <=4 crossings (all orientations; HOMFLY compared), and with up to 8 boundary edges on one orientation of every 5-crossing map", "thorough": "5 crossings with all orientations, 6-crossing maps"}, DIAG)

P("D16", "A diagram is rebuilt exactly from its crossings",
  "Regenerating a diagram from nothing but its crossings, in any order, rotation and edge naming, gives a valid diagram with the same underlying planar map, consistently oriented and consecutively numbered edges, components sorted longest first with fresh tags, and all faces; given a consistent set of oriented edges it also keeps every orientation and crossing sign. Signs are discarded only when the edges are missing or inconsistent.",
  ["inputs"], "all planar maps under all namings, rotations and orders, with and without edges and signs", "the walk that orients and renumbers depends on the names met first; tests regenerate a few fixed codes",
  ["src/pdcode.c"], [("regeneration", "src/pdcode.c: pd_regenerate, pd_regenerate_crossings, pd_regenerate_edges, pd_regenerate_comps, pd_regenerate_faces"), ("consistency", "src/pdcode.c: pd_cross_ok, pd_edges_ok, pd_ok")],
  [dict(harness="D16")], {"quick": "every edge naming, crossing order and rotation of every map with <=2 crossings, every edge naming and crossing order for 3 crossings, all orientations and sign patterns; shifted, reversed, transposed and multiplied namings of all 4, 5 and 6-crossing maps", "thorough": "signs for 5 crossings, all orientations for 4 crossings"}, DIAG)

P("D17", "The diagram of a polygon is its projection and has its knot type",
  "For every closed polygon or link without self-intersections whose projection is not split, the diagram computed from it is a valid diagram of the same knot or link, one component per component of the curve; along the axis, when the projection is generic, it is exactly the projected curve with its crossings, signs and orientations (a crossingless curve gives one kink). Degenerate projections (vertical edges, overlapping edges, triple points) are resolved by rotation and perturbation without changing the link type, for every sequence of random numbers, or no diagram is returned. The curve is not modified.",
  ["inputs", "random choices"], "all polygons and links, all random numbers", "sign, height and order decisions combine over all pairs of edges, and degenerate views only arise for special positions; the tests project a handful of smooth curves",
  ["src/plcTopology.c"], [("projection", "src/plcTopology.c: pd_code_from_plCurve, make_zprojection_generic, findcrossings, locate_crossing, tag_as_trouble"), ("assembly", "src/plcTopology.c: divide_crossings_by_component, assemble_pdcode")],
  [dict(harness="D17")], {"quick": "all polygons on 3..5 points in general position and all pairs of triangles with all orders of heights, every 3rd height order of hexagons, 199th of heptagons, 29th of triangle and quadrilateral; all hexagons with concurrent diagonals (every 5th height order); lattice polygons of length <=8; a lattice trefoil and Hopf link in all 48 positions at 4 scales, with 27 choices of the first random numbers", "thorough": "all hexagons, triangle and quadrilateral pairs, every 11th heptagon, lattice polygons of length 10, 4 random streams"}, LIB)

P("D18", "Classification returns exactly the tabulated knot types of the input",
  "Classifying a knot diagram returns the knot types in the table (all prime knots with at most 10 crossings and their distinct mirror images and reverses, all composite knots with at most 12 crossings in total, the unknot) whose HOMFLY polynomial is that of the diagram: every one of them, once each, with correct crossing numbers, indices and symmetry tags, and no other type; with no such type it reports none. Classifying a closed polygon gives the types of the knot it forms. The input is left intact and remains the caller's. Knot type text names the factors: whatever is written reads back with the same factors, every existing knot up to 19 crossings and any connected sum of up to 10 of them is accepted, and text naming a knot that does not exist or no knot at all is refused.",
  ["inputs"], "all knot diagrams and closed polygons, all knot type strings", "a wrong table entry, search boundary or tag shows up for single knots only; no test classifies more than a few",
  ["src/plcTopology.c", "src/homfly.h", "src/pllmpoly02.c"], [("classification", "src/plcTopology.c: pd_classify, plc_classify, homcmp"), ("table", "src/homfly.h: ktdb"), ("text", "src/plcTopology.c: plc_read_knottype, plc_write_knottype")],
  [dict(harness="D18", deep=True)], {"quick": "reference diagrams of all 249 prime knots, mirrored, reversed and with kinks; connected sums of all 544 composite types at six places each; every signed knot diagram with <=6 crossings; polygons of 3..7 vertices with all (every 5th for 6, every 701st for 7) height orders; all one- and two-factor strings over crossing numbers -2..22 at the index bounds; 1 to 13 factors; all strings of length <=6 over 6 letters", "thorough": "every signed knot diagram with 7 crossings"}, LIB)

P("D19", "The standard diagrams are what they are named after, at every size",
  "For every size, the builders return valid diagrams with the advertised number of crossings and components: the (2,q) torus builder gives the closed two-strand braid with q positive crossings and parallel strands; the twist knot builder gives the alternating diagram of the knot with n twists and a positive clasp; the chain builder gives n rings in a row, neighbours clasped with linking number one and no others linked; the unknot and wye builders give diagrams with all crossings positive that can be undone by removing loops, and two wyes are isomorphic exactly when their tendrils have the same lengths.",
  ["inputs"], "all sizes", "the builders special-case the small sizes and index edges modulo the size; tests use a few sizes and check little of the structure",
  ["src/pdcode_testcodes.c"], [("builders", "src/pdcode_testcodes.c: pd_build_twist_knot, pd_build_torus_knot, pd_build_simple_chain, pd_build_unknot, pd_build_unknot_wye, pdint_build_tendril")],
  [dict(harness="D19")], {"quick": "all sizes up to 100 (chains up to 52 links), all wyes with up to 9 twists and all pairs of them with the same number", "thorough": "all sizes up to 240, wyes with up to 14 twists"}, DIAG)

P("D20", "Splitting a diagram yields exactly its connected pieces",
  "Splitting a possibly disconnected diagram returns one valid diagram per connected piece, each identical to that piece (crossings with their signs, component tags and orientations), with crossingless components returned as 0-crossing diagrams; nothing is lost, merged or duplicated.",
  ["inputs"], "all disconnected diagrams: all tuples of connected pieces in all interleavings of crossings and edges", "pieces are only separated wrongly for particular interleavings of component, crossing and edge numbers",
  ["src/pd_splitdiagram.c"], [("split", "src/pd_splitdiagram.c: pd_split_diagram")],
  [dict(harness="D20")], {"quick": "all single, pairs and triples of a family of connected diagrams with <=4 crossings (one component up to several, with and without signs, crossingless circles), in up to 24 orders of their components and three rotations of their crossings", "thorough": "larger pieces"}, DIAG)

P("D21", "The symmetry iterators visit every element exactly once",
  "Iterating permutations, dihedral and cyclic group elements, orientations, or multi-indices of these starts at the identity, visits every element (tuple) exactly once in as many steps as reported, permutations in increasing order and multi-indices with the last position changing fastest, and returns to the start; copies are independent and continue from the same place. Composition, in-place product, inverse, identity test and period of permutations are those of the group, also after iteration. The validity checks accept exactly the group elements, comparison is a total order consistent with equality, the uniqueness checks find exactly the repetitions, and printing works for every size.",
  ["inputs", "histories"], "all group sizes and elements, all tuples", "small permutations come from a table and larger ones from an algorithm, and wrong elements only matter for diagrams with particular symmetries; tests sample a few sizes",
  ["src/pd_perm.c", "src/pd_permdata.h", "src/pd_dihedral.c", "src/pd_cyclic.c", "src/pd_orientation.c", "src/pd_multidx.c"], [("permutations", "src/pd_perm.c: pd_increment_perm, pd_compose_perms, pd_stareq_perm, pd_inverse_perm, pd_perm_period, pd_perm_ok, pd_regenerate_pcidx"), ("dihedral", "src/pd_dihedral.c: pd_increment_dihedral, pd_dihedral_ok"), ("cyclic", "src/pd_cyclic.c: pd_increment_cyclic, pd_cyclic_ok"), ("tuples", "src/pd_multidx.c: pd_increment_multidx, pd_multidx_nvals, pd_copy_multidx, pd_multidx_cmp")],
  [dict(harness="D21")], {"quick": "all permutations of 1..8, all dihedral and cyclic groups of order up to 60, all pairs of permutations of 1..5, all maps of up to 5 points for the validity checks, all multi-indices of up to 4 objects of size up to 4 (3 for the later ones), up to 11 orientations, first and last permutations of up to 400 points", "thorough": "permutations of 9, groups up to 120, pairs of permutations of 6, maps of 6 points, larger tuples"}, DIAG)

P("D22", "Containers and index buffers behave as a stack and a set",
  "Under every history of adding and popping, a container holds exactly the pointers added and not popped, in order, NULL pointers included, at every size and whatever its initial size; popping returns the last one, and freeing releases each remaining non-NULL element exactly once, by the given function. A sorted index buffer holds exactly the set of the inserted indices in increasing order, and both searches find exactly the members, at an index which holds them, over the whole range of indices; resizing an allocation keeps its contents.",
  ["histories", "inputs"], "all histories, sizes and indices", "growth happens at sizes a test does not reach, and comparison of large indices overflows only at the ends of the range",
  ["src/pd_container.c", "src/pd_sortedbuf.c", "src/ordie.c"], [("container", "src/pd_container.c: pd_addto_container, pd_pop_container, pd_free_container, pd_container_elt"), ("sorted buffer", "src/pd_sortedbuf.c: pd_sortedbuf_insert, pd_sortedbuf_contains, pd_buf_contains"), ("allocation", "src/ordie.c: realloc_or_die_internal, calloc_or_die_internal")],
  [dict(harness="D22")], {"quick": "all up-down-up histories through every size near a multiple of the growth step for 9 initial sizes; all words of 6 operations; every initial size up to 1050; all insertion sequences of length 6 over 7 small indices and 5 over 7 indices at the ends of the range", "thorough": "words of 8 operations, insertion sequences of 7, more sizes"}, DIAG)

P("D23", "Polynomial text conversions keep the polynomial",
  "Converting a HOMFLY polynomial between its internal text, LaTeX, Mathematica and KnotTheory forms and the array of terms keeps every coefficient and both exponents, for any number of terms, any exponents and signs, and never writes outside its buffers. The product of two polynomials is their product with like terms collected, cancelled terms dropped and terms in the standard order, and equality of polynomials does not depend on how they were obtained.",
  ["inputs"], "all two-variable Laurent polynomials", "a wrong case needs a particular combination of sign, unit coefficient, zero exponent and position, or more terms than small knots have",
  ["src/polynomials.c"], [("parsing", "src/polynomials.c: lmpoly_to_polynomial, KnotTheory_to_polynomial"), ("printing", "src/polynomials.c: poly_to_latex, poly_to_mathematica, polynomial_to_lmpoly"), ("algebra", "src/polynomials.c: product_polynomial, polynomials_eq")],
  [dict(harness="D23")], {"quick": "the enumeration of harness/D23.cpp: all 512 supports in 3x3 windows at 50 places, all two-term polynomials over 10 spread exponents and 6 extreme coefficients, rows and columns of up to 25 terms, all pairs of a set of small polynomials multiplied", "thorough": "a third window stride"}, DIAG)

P("D03", "Diagram text formats round-trip",
  "Every valid diagram written in the native text format and read back is the same diagram in every field the format carries (crossings, signs, edges, components with tags, faces, uid and hash), also when several diagrams follow each other in one stream; every fully signed diagram written as a KnotTheory code reads back as the same diagram up to relabelling, and the generated C program text rebuilds exactly the diagram it was written from.",
  ["inputs", "histories"], "all diagrams, tags, uids, hashes, sign patterns and stream positions", "a format only breaks for particular shapes (two-edge components, 0 crossings, unset signs, maximal hash) that fixed test files do not contain",
  ["src/pdcode.c", "src/plcTopology.h"], [("native text", "src/pdcode.c: pd_write, pd_read_err"), ("KnotTheory text", "src/pdcode.c: pd_write_KnotTheory, pd_read_KnotTheory"), ("C text", "src/pdcode.c: pd_write_c")],
  [dict(harness="D03")], {"quick": "every diagram with <=3 crossings in every labelling and sign pattern, every signed 4-crossing diagram, maps up to 6 crossings; all streams of up to three small diagrams", "thorough": "one crossing more"}, DIAG)

P("D04", "Corrupt diagram text never yields an invalid diagram",
  "Reading damaged or hostile diagram text (truncated at any byte, any token, line or pair of numbers altered, dropped, repeated or swapped; any KnotTheory code over small edge numbers) either returns NULL with an error code or returns a diagram that is valid; for KnotTheory text an accepted diagram is the one the text spells. It never terminates the program, reads or writes out of bounds, or hangs.",
  ["inputs", "crash points"], "all corruptions of diagram files, including every torn write", "hostile inputs are unbounded; tests only read well-formed files",
  ["src/pdcode.c"], [("native reader", "src/pdcode.c: pd_read_err"), ("KnotTheory reader", "src/pdcode.c: pd_read_KnotTheory"), ("validity gate", "src/pdcode.c: pd_ok, pd_faces_ok, pd_comps_ok, pd_edges_ok, pd_cross_ok")],
  [dict(harness="D04")], {"quick": "all listed single corruptions of the texts of all diagrams with <=1 crossing, a third of the 2-crossing and one in 40 of the 3-crossing diagrams, double corruptions for <=1 crossing; all one-crossing codes over -1..4, all two-crossing codes over 1..4, three-crossing codes with two fixed first crossings", "thorough": "denser families, two-crossing codes over 0..5 and all three-crossing codes"}, DIAG)

P("D05", "Packed diagrams unpack to the same diagram",
  "Packing any valid diagram (all crossings signed, or none) into the compact bit form and unpacking it gives back exactly the same crossings, signs, edges, components and faces, using no bit outside the reported length; packing leaves the diagram unchanged and the bit, index and crossing codecs are exact inverses for every size.",
  ["inputs"], "all diagrams of all sizes, all bit strings and index widths", "the codec's alignment changes with the number of crossings; tests pack a few sizes",
  ["src/pd_pack.c"], [("pack/unpack", "src/pd_pack.c: pd_pack, pd_unpack"), ("bit codecs", "src/pd_pack.c: pd_packbitstring, pd_unpackbitstring, pd_idx_bitencode, pd_idx_bitdecode")],
  [dict(harness="D05")], {"quick": "every diagram with <=4 crossings (every labelling for <=3), every map with 5-6; unknots, torus knots and chains up to 140 crossings; all bit strings up to 15 bits, all walking bits up to 200 bits, all indices up to 600 crossings", "thorough": "one crossing more; up to 300 crossings; bit strings up to 20 bits; indices up to 3000 crossings"}, DIAG)

P("D06", "Equivalence of diagrams is decided exactly",
  "Isomorphism (up to reflection and reversal), map isomorphism and diagram isotopy of two valid diagrams are reported exactly when such a map exists, whatever the numbering of crossings, edges, components and faces; the listed isomorphisms are all of the existing ones, each once, each consistent; the automorphisms form a group under the library's composition; the compared diagrams are not modified.",
  ["inputs"], "all pairs of diagrams and all relabellings of them", "completeness needs every pair and every labelling; tests compare selected pairs",
  ["src/pd_isomorphisms.c", "src/pd_perm.c", "src/pd_multidx.c", "src/pd_dihedral.c", "src/pd_orientation.c"], [("decisions", "src/pd_isomorphisms.c: pd_isomorphic, pd_map_isomorphic, pd_diagram_isotopic"), ("lists", "src/pd_isomorphisms.c: pd_build_isos, pd_build_map_isomorphisms, pd_build_diagram_isotopies"), ("group", "src/pd_isomorphisms.c: pd_compose_isos, pd_stareq_iso, pd_iso_period")],
  [dict(harness="D06")], {"quick": "all pairs of maps with <=4 crossings (every orientation; every labelling of isomorphic pairs), all pairs of decorated diagrams with <=3 crossings under every tag permutation and, when isotopic, every labelling", "thorough": "<=5 and <=4 crossings"}, DIAG)

P("D07", "The hash depends only on the isomorphism class",
  "Isomorphic diagrams (under any renumbering of crossings, edges, components and faces, reversal of components, reflection, any signs and tags) have the same hash, a printable terminated string; computing it does not modify the diagram and regenerating it gives the same value.",
  ["inputs"], "all diagrams and all forms in which each can be presented", "the hash is used as the index of stores and censuses; a dependence on labelling only shows for particular relabellings",
  ["src/pdcode.c"], [("hash", "src/pdcode.c: pd_regenerate_hash, pd_canonicalorder")],
  [dict(harness="D07")], {"quick": "every map with <=6 crossings: every labelling and orientation and mirror image for <=4, every start edge beyond; standard families up to 60 crossings under reversals and renumberings", "thorough": "maps with <=7 crossings, families up to 120"}, DIAG)

P("D08", "A diagram store is a faithful set under every history",
  "Under every history of additions (with any equivalence), searches, complete or interrupted iterations and file round trips, a store holds exactly one copy per equivalence class asked for, gives every element a hash/uid pair that stays its own, iterates over each element exactly once, finds an isomorphic element exactly when one is stored (with all isomorphisms to it), and counts correctly. Stores written at once, incrementally or with an open element count read back with the same elements, and a file torn at any byte is either refused or reads as exactly what was written.",
  ["histories", "crash points"], "all operation histories, all torn files", "uid assignment, iteration state and hash collisions only interact over several operations; tests build one store",
  ["src/pd_storage.c", "src/pd_isomorphisms.c", "src/pd_pack.c"], [("add/search/iterate", "src/pd_storage.c: pd_addto_pdstor, pd_search_pdstor_by_isomorphism, pd_stor_firstelt, pd_stor_nextelt"), ("files", "src/pd_storage.c: pd_write_pdstor, pd_read_pdstor, pd_start_incremental_pdstor, pd_addto_incremental_pdstor, pd_finish_incremental_pdstor")],
  [dict(harness="D08", objs=["lib", "judy"])], {"quick": "all histories of 3 operations over 6 diagrams and of 4 over 3 diagrams (30 and 18 operations), of 2 over groups of equal-hash diagrams; all decorated diagrams with <=3 crossings in one store; all batchings of up to 4 incremental additions with every cut and every torn header", "thorough": "histories of 4 and 5 operations, 3 for equal hashes; 5 incremental additions"}, DIAG + ["diagrams have default component tags, the only ones the store keeps"])

P("D09", "The HOMFLY polynomial is exact",
  "For every fully signed diagram the reported HOMFLY polynomial equals the one determined by the skein relation l P+ + l^-1 P- + m P0 = 0 and P(unknot) = 1, independently of how the diagram is labelled; it is a well-formed polynomial without zero or repeated terms, and computing it does not modify the diagram.",
  ["inputs"], "all signed diagrams and labellings", "the evaluator picks different simplification branches for every diagram; tests cover table entries",
  ["src/plcTopology.c", "src/pllmpoly02.c", "src/polynomials.c"], [("crossing code", "src/plcTopology.c: pdcode_to_ccode"), ("evaluator", "src/pllmpoly02.c: plc_lmpoly"), ("output form", "src/polynomials.c: lmpoly_to_polynomial, poly_to_latex")],
  [dict(harness="D09")], {"quick": "every signed diagram with <=5 crossings in every orientation (every labelling for <=3, one in 7 or 29 beyond), maps with 6 and a third of those with 7 crossings with 8 fixed and both alternating signings; (2,n) torus links to n=28, curled unknots to 120 crossings, chains of up to 16 rings", "thorough": "denser labellings, 24 signings of all 6- and 7-crossing maps, torus links to 34, unknots to 249 crossings, chains to 30"}, DIAG + ["diagrams have at most 250 crossings, the evaluator's documented limit"])

P("D24", "The command-line tools for diagram files keep exactly the right diagrams",
  "Run on any store files, joinpd leaves exactly one diagram per class of the chosen relation (with --no-checking: every diagram of every input) in its output; splitpd distributes the diagrams over numbered pieces, each diagram in exactly one and every piece but the last of the requested size; filterpd keeps exactly the diagrams with the requested number of components; computepd writes one line per diagram with its correct hash, uid, component, crossing, automorphism, interlacement, monogon and bigon counts and HOMFLY polynomial, in the order asked for; connectsum leaves exactly one diagram per isomorphism class of all connected sums, over all edges and orientations of components, of a diagram of one file and one of the other; carbonizepd writes one C function per diagram, in order. Inputs are not changed; an unreadable input or an incomplete command line is refused without writing any output.",
  ["inputs", "options"], "all contents of the input files, all option combinations, all truncations of an input", "the tools have no tests at all; batch boundaries, duplicates across files and empty stores only show for particular contents",
  ["src/joinpd.c", "src/splitpd.c", "src/filterpd.c", "src/computepd.c", "src/connectsum.c", "src/carbonizepd.c"], [("joining", "src/joinpd.c: main"), ("splitting", "src/splitpd.c: main"), ("filtering", "src/filterpd.c: main"), ("computed tables", "src/computepd.c: main"), ("connected sums", "src/connectsum.c: main"), ("C code", "src/carbonizepd.c: main")],
  [dict(harness="D24", objs=["lib", "judy"], tools=["joinpd", "splitpd", "filterpd", "computepd", "connectsum", "carbonizepd"])], {"quick": "every store of up to 3 diagrams from a pool of 6 (duplicates and equivalent diagrams included) and three large stores with up to 300 diagrams: every piece count and size 1-4, every component count 0-3, every quantity alone and all together in two orders; joinpd on every pair of stores with up to 2 diagrams, triples with up to 1, under the three relations; connectsum on every pair of diagrams with up to 3 crossings and some larger stores; every prefix of a store file near its header and every 37th byte after it as an input", "thorough": "pools of 9 diagrams, 4 inputs to joinpd, large stores with up to 900 diagrams"}, DIAG + ["diagrams have default component tags, the only ones the store keeps", "each tool is its real source with main renamed, run in a process of its own inside a scratch directory", "computepd homfly is only asked for fully signed diagrams"])

CURVE = LIB + ["coordinates compare within rounding error; the expected values come from an independent value model of curves in harness/curve.hpp"]

P("C01", "The constraints of a curve form an exact map from vertices to constraints",
  "Under every history of fixing vertices, constraining runs of vertices to lines or planes, unconstraining runs, removing a constraint or all of them, each vertex of a curve carries exactly the constraint last given to it and every other vertex is unaffected, also across component boundaries; queries and the count of freed vertices agree with that map. The reported constraint error is the largest distance of a vertex from its constraint, and moving a curve onto its constraints moves each constrained vertex to the nearest point satisfying it and no other vertex.",
  ["histories", "inputs"], "all histories of constraint operations on all curves", "the constraint list is edited by splitting, merging and relinking runs; the errors need particular overlaps of earlier runs",
  ["src/plCurve.c"], [("constraint list", "src/plCurve.c: plc_set_fixed, plc_constrain_to_line, plc_constrain_to_plane, plc_unconstrain, plc_remove_constraint, plc_remove_all_constraints"), ("queries", "src/plCurve.c: plc_is_constrained"), ("constraint geometry", "src/plCurve.c: plc_check_cst, plc_fix_cst")],
  [dict(harness="C01")], {"quick": "closure of the reachable constraint lists (hence histories of every length) for 12 component layouts with up to 6 vertices and alphabets of up to 6 constraints; every assignment of 11 constraints to 3-4 vertices for 8 position tables", "thorough": "layouts with up to 9 vertices; five vertices for the geometry"}, CURVE)

P("C02", "Curves survive being written to a file and read back",
  "Every curve written in VECT format and read back has the same components, open or closed, the same vertices, colors and constraints, to at least 16 significant digits, and the same wraparound vertices; comments and blank space added between the lines do not matter, a second round trip reproduces the text exactly, and writing does not change the curve.",
  ["inputs"], "all curves: component counts, open and closed components, color counts, constraint assignments, coordinates of every magnitude", "the format interleaves counts, constraint numbers and comments; tests write a few fixed curves",
  ["src/plCurve.c"], [("writer", "src/plCurve.c: plc_write"), ("reader", "src/plCurve.c: plc_read")],
  [dict(harness="C02")], {"quick": "every layout of up to 3 components with up to 6, 4 and 3 vertices and every color count; every assignment of 6 constraints to up to 4 vertices; up to 130 constraints of each kind; 64 tables of extreme coordinates", "thorough": "more vertices per component; 5 constrained vertices"}, CURVE)

P("C03", "Damaged curve files are refused or read as a valid curve",
  "Reading any byte string as a VECT file either returns a well formed curve (every component with at least one vertex, at most as many colors as vertices, all constraints in range, wraparound set) or no curve and one of the documented error numbers with a terminated message; it never touches memory outside its buffers, crashes or accepts a file without the VECT keyword.",
  ["inputs", "crash points"], "all byte strings; in particular all torn and corrupted files", "the hostile inputs are the ones nobody writes a test file for",
  ["src/plCurve.c"], [("reader", "src/plCurve.c: plc_read, get_comment, scanints, scandoubles")],
  [dict(harness="C03")], {"quick": "six files torn at every byte, every byte overwritten by 7 others, every token deleted, doubled or replaced by 22 others, every line dropped, doubled or swapped; every pair of token replacements in two files; all headers over 8 counts; all pairs of 13 constraint definitions with 11^3 uses; all texts of up to 5 of 10 fragments", "thorough": "token pairs in four files, texts of up to 6 fragments"}, LIB + ["memory for the vertex counts the file announces can be allocated"])

P("C04", "Structural edits of a curve do exactly what they say",
  "Under every history of adding and dropping components, deleting arcs, doubling vertices, recoloring, resizing color buffers, constraining and copying, a curve has exactly the components, vertices, colors and constraints that the documented effect of each edit gives; everything the edit does not mention is unchanged, wraparound vertices are current, and copies are independent of their original.",
  ["histories", "inputs"], "all histories of edits on all curves", "an edit that leaves a constraint, color or wraparound vertex at the wrong place only shows after a particular later edit",
  ["src/plCurve.c"], [("components", "src/plCurve.c: plc_add_component, plc_drop_component, plc_resize_colorbuf, plc_set_color"), ("arcs", "src/plCurve.c: plc_delete_arc"), ("refinement", "src/plCurve.c: plc_double_verts"), ("copies", "src/plCurve.c: plc_copy, plc_fix_wrap")],
  [dict(harness="C04")], {"quick": "all histories of 3 edits on curves with up to 4 vertices and of 2 edits on curves with up to 8 vertices in up to 3 components; every arc of closed and open components of 3-6 vertices; doubling of every lattice triangle", "thorough": "histories of 3 edits throughout"}, CURVE)

P("C05", "Measurements of a curve equal their definitions",
  "For every curve, open or closed, with any number of components, the reported vertex and edge counts, vertex numbering, arclength, arclength positions, subarc lengths, edge length statistics, turning angles, total curvature and torsion, MinRad curvature, dihedral angles, tangents, center of mass, diameter, gyration radius and chord statistics equal their definitions, no measurement changes the curve, and degenerate vertices are flagged rather than producing a wrong value.",
  ["inputs"], "all polygonal curves, in particular those with repeated, collinear and reversing vertices", "each measurement treats ends, closing edges and degenerate corners separately; tests measure regular examples",
  ["src/plCurve.c", "src/plc_dihedrals.c"], [("lengths", "src/plCurve.c: plc_arclength, plc_s, plc_subarc_length, plc_edgelength_stats"), ("angles", "src/plCurve.c: plc_turning_angle, plc_totalcurvature, plc_totaltorsion, plc_MR_curvature"), ("dihedrals", "src/plc_dihedrals.c: plc_dihedral_angles"), ("moments", "src/plCurve.c: plc_center_of_mass, plc_gyradius, plc_mean_squared_chordlengths, plc_pointset_diameter")],
  [dict(harness="C05", deep=True)], {"quick": "every one-component curve of up to 5 vertices on a 12-point lattice and of 5-7 vertices on 5 points, open and closed; every two-component curve of up to 3+3 vertices on 4 points; three components", "thorough": "8 vertices on 5 points"}, CURVE + ["coordinates are of order one: angle and curvature functions use absolute tolerances"])

P("C06", "Rigid motions, folds and the Whitten action move the whole curve consistently",
  "Under every history of rotations, translations, scalings, arc folds, projections and elements of the Whitten group, vertices and constraints move together exactly as the operation says, colors and structure are kept, and distances are preserved where the operation is rigid. Every permutation, reversal and mirror of the Whitten group acts as documented; pointing an axis up is a rotation which does so; perturbing moves only unconstrained vertices, by at most the requested distance, for every sequence of random numbers.",
  ["histories", "inputs", "random choices"], "all histories of motions on all curves, all random number sequences", "the errors sit in combinations (constraints after a mirror, folds across the closing edge) that fixed examples do not reach",
  ["src/plCurve.c", "src/plwhitten.c"], [("motions", "src/plCurve.c: plc_rotate, plc_translate, plc_scale, plc_pfm, plc_project, plc_random_rotate"), ("Whitten group", "src/plwhitten.c: plc_whitten"), ("perturbation", "src/plCurve.c: plc_perturb")],
  [dict(harness="C06")], {"quick": "all histories of 2 operations (rotations, translations, scalings, every fold, projections, every Whitten element) on 5 constrained curves; every Whitten element of up to 4 components in every cycle notation; a 12x24 grid of axes; every sequence of four of 5 random numbers", "thorough": "histories of 3 operations, finer axis grid, six random numbers"}, CURVE)

P("C07", "Vector, plane, angle and matrix algebra is exact",
  "For all arguments, including zero, parallel, coplanar and degenerate ones, the vector operations (functions and macros), angles, dihedral angles, normals, circumcenters, plane intersections, matrix products and linear solves equal their definitions to rounding error, report degenerate arguments through their ok flag instead of returning a wrong value, and random directions lie on the sphere for every sequence of random numbers.",
  ["inputs", "random choices"], "all argument tuples; all random number sequences", "the degenerate cases form lower dimensional families that examples miss",
  ["src/vector.c", "src/matrix.c", "src/plCurve.h"], [("vectors", "src/vector.c: plc_vect_sum, plc_cross_prod, plc_random_vect"), ("angles", "src/vector.c: plc_angle, plc_dihedral_angle"), ("matrices", "src/matrix.c: lu_decmp, solve_linear, plc_matrix_matrix_multiply")],
  [dict(harness="C07", deep=True)], {"quick": "all pairs of 125, triples of 36 and quadruples of 18 lattice vectors; every quadruple of a lattice scaled by 2^-13..2^17 and flattened by 2^-10; 401x401 angle pairs; grids of random numbers", "thorough": "343, 64 and 36 vectors"}, LIB)

P("C08", "Nearest neighbor queries return a nearest point under every query history",
  "For every buffer, curve and query point, the returned index names a point at the smallest distance, whether the buffer is small or large, sorted, constant or tied, whether precomputed data is supplied, fresh or absent; precomputed data of another buffer or curve is recognized, reported as stale and replaced, and queries never change the data searched.",
  ["inputs", "histories"], "all buffers, queries and sequences of queries through one handle", "the sorted search prunes by a running bound; a wrong bound only shows for particular relative positions",
  ["src/nearest_neighbor.c"], [("buffer search", "src/nearest_neighbor.c: plc_nearest_neighbor"), ("curve search", "src/nearest_neighbor.c: plc_nearest_vertex")],
  [dict(harness="C08", deep=True)], {"quick": "every buffer of up to 3 lattice points with a 13^3 grid of queries (through one handle and without); every placement of 3 lattice points inside 12 large buffers; 32 shaped buffers around 5000 points; all 4096 query histories of length 6 over four buffers; all alternations of six queries over 25 pairs of curves", "thorough": "histories of length 8 over four buffers"}, LIB)

P("C09", "Symmetry groups act exactly and symmetrizing averages over orbits",
  "A rotation, reflection or coordinate plane group is built for a curve exactly when sending each vertex to the vertex nearest its image is a permutation for every element; its matrices, vertex maps, inverses and compositions are those of the group. Symmetrizing a curve or a variation replaces every vertex by the average over its orbit, is idempotent and leaves no symmetry error; the reported symmetry error is the largest vertex displacement. A group follows its curve through rotations and copies and is dropped by edits that invalidate it.",
  ["inputs", "histories"], "all symmetric and nearly symmetric curves, all histories of operations on curves carrying a group", "orbits with stabilizers, several components and perturbed vertices interact; tests symmetrize one curve",
  ["src/symmetries.c", "src/plCurve.c"], [("groups", "src/symmetries.c: plc_build_symmetry, plc_compose_symmetries, plc_rotation_group, plc_reflection_group, plc_coordplanes_reflection_group"), ("averaging", "src/symmetries.c: plc_symmetrize, plc_symmetrize_variation"), ("checks", "src/symmetries.c: plc_symmetry_check, plc_symmetry_group_check"), ("group transport", "src/plCurve.c: plc_rotate, plc_copy, plc_translate")],
  [dict(harness="C09")], {"quick": "28 groups (rotations up to 17-fold) on all unions of one or two orbits in 3 component layouts, with every pattern of up to two moved vertices (one in 3 of the pairs) and every vertex removed or doubled; six non-abelian groups built element by element with every composition; all histories of 2 of 13 operations", "thorough": "37 groups, all unions of five orbits, all pairs, histories of 3 operations"}, CURVE)

P("C10", "Splines interpolate their curve exactly and resampling follows them",
  "The spline of a curve without repeated consecutive vertices passes through every vertex, at the vertex's arclength, and is the twice continuously differentiable cubic interpolant with the documented end slopes; sampling a position or a tangent at any parameter gives that cubic's value, with closed components wrapping periodically. Converting a spline back to a curve gives the requested number of vertices per component, evenly spaced in the parameter along it, with interpolated colors and well-formed constraints.",
  ["inputs"], "all open and closed curves, parameters, vertex counts, colors and constraints", "component shape, closedness, parameter cell and color or constraint bookkeeping interact; tests sample a few smooth curves",
  ["src/splines.c"], [("fit", "src/splines.c: plc_convert_to_spline"), ("sampling", "src/splines.c: plc_sample_spline, plc_spline_tangent"), ("resampling", "src/splines.c: plc_convert_from_spline")],
  [dict(harness="C10",deep=True)], {"quick": "all curves of the enumeration in harness/C10.cpp (up to 2 components of up to 5 vertices over small point sets), a grid of parameters in every cell, all requested sizes of 1..8, color counts none/one/full, all constraint patterns", "thorough": "larger components and denser grids"}, CURVE)

P("C11", "Struts, minrad and ropelength are exact",
  "A strut is a pair of points on non-adjacent edges which is a local minimum of distance. For every curve the shortest strut length, and the lists of all struts below a cutoff or within epsilon of the shortest, are exactly those of an exhaustive search over all pairs of edges; the result does not depend on the number of octree levels or on a caller supplied work buffer, and a list that is too small is filled with genuine struts and never overrun. Minrad and its location lists equal their definition, thickness is the smaller of half the shortest strut and minrad over the stiffness, ropelength is length over thickness, and illegal arguments set the error number.",
  ["inputs"], "all open and closed curves and links without degenerate edges, cutoffs, list sizes, octree depths and buffers", "octree boxes, ramps, wedges and the turning angle bound prune pairs of edges; a wrong pruning loses a strut only for special positions",
  ["src/octrope.c", "src/minrad.c", "src/octmem.c"], [("struts", "src/octrope.c: octrope_struts, check_boxes, box_intersects, wedge_check, ramp_check, build_octree, max_turning_angle, cleanup_strutlist"), ("segment distance", "src/octrope.c: find_poca"), ("minrad", "src/minrad.c: octrope_minrad"), ("combined call", "src/octrope.c: octrope, octrope_thickness, octrope_ropelength, octrope_poca, octrope_curvelength, octrope_strut_ends"), ("work buffer", "src/octmem.c: reserve_octmem, reserve_aux_mem, oct_alloc, aux_alloc")],
  [dict(harness="C11")], {"quick": "all open and closed components of 2..6 vertices and pairs of components of up to 7 on 8 points in general position, with every gap between strut lengths as cutoff and epsilon, up to 10 octree depths and 4 buffers; 9 families of finely sampled curves of 7..34 vertices; fine curves with one spike, hairpin, bulb, curl or corner at every index and in both directions; contacts at every corner of a large box; equiangular polygons of 4..16 sides turned; all segment pairs of a 3x3x3 lattice (half); all segment pairs of a 6x2x2 lattice at two scales, also as two one-edge curves; a neck of parallel edges and all 4-vertex lattice curves and pairs in turned positions", "thorough": "components of 7 vertices, families up to 60 vertices, all lattice segment pairs"}, CURVE)

P("C18", "The command-line tools for curves report what the geometry says",
  "Run on any readable VECT file, ropelength prints the ropelength, thickness, minrad, shortest strut, edge count and mean edge length of each curve for the given stiffness, the excess length of a curve with one open component, the diameter of the vertex set, and names the file with the least ropelength; struts lists and writes exactly the struts within the epsilon of the shortest or below twice the radius asked for (length 1 by default), at most as many as allowed, with correct statistics; mrlocs does the same for the vertices whose minrad is within epsilon of the smallest or at most half of lambda (1/2 by default); plcurvature writes arclength, curvature and its radius for every vertex and prints the total curvatures. randompolygon writes exactly the number of samples asked for, numbered from 0, each a closed equilateral polygon with the requested number of edges that satisfies the requested confinement, failure to close, self-avoidance and knot type, in the requested format, the same for the same seed, and replaces only its own output. Inputs are never changed; unusable input or command lines are refused without writing any output.",
  ["inputs", "options"], "all curves, option combinations, seeds, and answers of the knot classifier", "the tools have no tests at all; list sizes, cutoffs, open components, composite knot types only show for particular inputs",
  ["src/ropelength.c", "src/struts.c", "src/mrlocs.c", "src/plcurvature.c", "src/plcrwalk.c"], [("ropelength", "src/ropelength.c: main"), ("struts", "src/struts.c: main, analyze_and_print_struts"), ("minrad locations", "src/mrlocs.c: main, analyze_and_print_mrlocs"), ("curvature", "src/plcurvature.c: main"), ("random polygons", "src/plcrwalk.c: main")],
  [dict(harness="C18", tools=["ropelength", "struts", "mrlocs", "plcurvature", "randompolygon:plc_classify=vt_classify"])], {"quick": "54 curves in general position (1-3 components of 2-31 vertices, open and closed): ropelength for 4 stiffnesses, 3 octree depths, quiet or not, alone and in groups of 2 and 3; struts and mrlocs at cutoffs in the gaps between lengths, every list size 1, 2 and all, 5 flag sets, 3 file names; randompolygon on 820 option combinations in every format and chord; every list of up to two of 9 knot types answered by the classifier against each of the 9; 35 unusable command lines", "thorough": "more curves and polygons, lists of three answers"}, CURVE + ["each tool is its real source with main renamed, run in a process of its own inside a scratch directory; knot types are scripted at the call of plc_classify", "printed numbers compare to the printed precision; the excess length of clasps is not checked"])

P("C12", "Strut files round-trip and damaged ones are refused",
  "Every list of struts and minrad locations that is written is read back with the same components, vertices and, to the printed precision, values. A file which lacks the keyword, ends early, has an unreadable number or refers to a component or vertex the curve does not have sets the error number and is never used as an index; a file in the format is read as exactly what it says, comments skipped.",
  ["inputs", "faults"], "all strut and minrad lists and all damaged files", "every byte position is a possible point of damage; no test reads a strut file",
  ["src/octrope.c"], [("reading", "src/octrope.c: octrope_strutfile_read, scanints, scandoubles, skip_whitespace_and_comments"), ("writing", "src/octrope.c: octrope_strutfile_write")],
  [dict(harness="C12",deep=True)], {"quick": "all single records over 81 index combinations and 8 values, all pairs; a file of 3 struts and 2 locations truncated at every byte, with every byte replaced by, preceded by or removed for 11 characters, every number replaced by 19 others, every line removed or doubled", "thorough": "29 characters, pairs of replaced numbers"}, CURVE)

P("C13", "Random polygons have the promised shape",
  "For every sequence of random numbers, each sampler returns a polygon of its kind: closed and open, space and plane polygons of total length 2 (plane ones planar), equilateral closed polygons with unit edges, equilateral open ones, self-avoiding ones whose vertices are at least 1 apart; vertices are always finite. Accepted equilateral polygons, self-avoiding ones included, are uniformly distributed in diagonals and dihedral angles over all admissible values. plc_loop_closure keeps the given arc and the other components, closes with the number of edges asked for and total length 2, and refuses what cannot be closed. The self-avoidance test is exact.",
  ["inputs"], "all sequences of random numbers (scripted), numbers of edges, arcs to close", "degenerate draws (flat triangles, zero vectors) have probability zero in a sampled test but abort or poison long runs",
  ["src/plcRandomPolygon.c", "src/plcRandomSap.c"], [("samplers", "src/plcRandomPolygon.c: plc_random_closed_polygon_internal, plc_random_open_polygon_internal, plc_random_equilateral_closed_polygon, fantriangulation_action_angle"), ("loop closure", "src/plcRandomPolygon.c: plc_loop_closure, plc_random_ftc_internal"), ("self-avoiding", "src/plcRandomSap.c: plc_is_sap_internal, plc_random_equilateral_closed_self_avoiding_polygon, plc_xoshiro_uniform")],
  [dict(harness="C13")], {"quick": "every word of 4 over 8 random numbers (including both extremes) for 1-12 edges and 300 continuations, lengths to 3000; full grids of random numbers for the distribution on 4 and 5 edges; 26 arcs x 6 layouts x 3 colourings x all numbers of edges for the closure; the density near base points for 6-12 edges; the share of 38 400 self-avoiding pentagons in every cell of diagonals and angles against a full grid; every point set of <=4 points, and every colliding pair of vertices on curves of 13 and 40 vertices cut 5 ways, for the self-avoidance test", "thorough": "words of 5, distribution on 6 edges, finer grids"}, CURVE)

P("C14", "Triangulations and action-angle coordinates are exact",
  "For every triangulation of a polygon, given by its chords in any order and direction, the tree of triangles built is the triangulation by exactly those chords, rooted at edge 0 and consistently oriented; fan, spiral, teeth and random triangulations are triangulations of their kind, and every triangulation can be drawn at random. The self-test and the test for crossing chords answer as documented on every damaged structure. Edge lengths, diagonals and dihedral angles computed from any polygon are those of the definition, embedding them again gives a congruent polygon (degenerate triangles included), and embedding accepts exactly the coordinates that satisfy every triangle inequality. The printed forms state exactly the diagonals and the moment polytope.",
  ["inputs"], "all triangulations, chord orders and directions, polygons, coordinates", "there are exponentially many triangulations; degenerate triangles sit on the boundary of the moment polytope which random tests never hit",
  ["src/plcToricSymplecticTriangulation.c"], [("triangulation", "src/plcToricSymplecticTriangulation.c: tsmcmc_generate_triangulation, tsmcmc_triangulation_ok, tsmcmc_chord_system_ok"), ("coordinates", "src/plcToricSymplecticTriangulation.c: tsmcmc_embed_polygon, tsmcmc_triangle_from_edgelengths, tsmcmc_compute_dihedral_angles"), ("printing", "src/plcToricSymplecticTriangulation.c: tsmcmc_triangulation_polymake, tsmcmc_triangulation_MathematicaForm")],
  [dict(harness="C14")], {"quick": "all triangulations of n-gons to n=9, all chord orders and directions to n=7, every field damaged to n=6; every polygon over 6 points with 3-5 vertices in every triangulation, selected ones to 37 vertices; every diagonal/angle grid point to n=6, nearly flat triangles (margin 1e-6) and edges scaled by 1e-3 and 1e3 for n=4,5; every triangulation drawn for n<=9; every chord of 21- and 37-chord systems replaced", "thorough": "all triangulations to n=11, orders to n=8, polygons over 8 points, coordinates to n=7"}, CURVE)
P("C15", "Markov chain steps stay in polygon space; drivers average what they show",
  "For every sequence of random numbers (the generator's extreme values included), every triangulation, and every history of steps: a moment polytope step moves the diagonals along the drawn direction to the drawn fraction of the chord inside the (confined) moment polytope and changes nothing else; a dihedral step resets every dihedral angle uniformly in [0,2pi); a permutation step is a uniformly chosen permutation of the edge vectors (of the unit edges only, when edge 0 has another length); the kind of step is chosen with the stated probabilities. The starting polygons are the regular, inscribed and folded ones. The expectation drivers hand the integrand only closed polygons with the promised edge lengths and confinement, once per step after burn-in, return the mean of its values with the initial positive sequence error, and count and log the steps truthfully.",
  ["histories"], "all random number sequences, triangulations, step histories, run parameters", "boundary hits and tiny directions have probability near 2^-32 per draw; a chain runs millions of steps",
  ["src/plcToricSymplectic.c"], [("steps", "src/plcToricSymplectic.c: tsmcmc_moment_polytope_step, tsmcmc_confined_moment_polytope_step, tsmcmc_dihedrals_step, tsmcmc_edgepermute_step"), ("drivers", "src/plcToricSymplectic.c: tsmcmc_equilateral_expectation, tsmcmc_confined_equilateral_expectation, tsmcmc_fixed_ftc_expectation"), ("starting polygons", "src/plcToricSymplectic.c: tsmcmc_regular_ngon, tsmcmc_regular_failure_to_close_ngon, tsmcmc_folded_triangle")],
  [dict(harness="C15")], {"quick": "all triangulations of n-gons to n=6, two generations of steps over 6 directions per coordinate and 5 positions; all histories of 2 steps to n=5; all permutations to n=6 with first edges 1, 1.5 and close to 1; starting polygons to n=64 with first edges from 1e-5 to n-1.01; the choice of step at the extreme random numbers; all drivers to n=8 over a grid of run parameters, extreme numbers at each of 40 places", "thorough": "n to 7, histories of 3 steps, 60 places"}, CURVE)
P("C16", "Error bars are the initial positive sequence estimate of all samples",
  "For every sequence of values, every buffer size, and every history of interleaved additions and evaluations, the estimator reports the mean of all samples so far and 1.96 sigma/sqrt(m) with sigma from Geyer's initial positive sequence of autocovariances of all samples (the variance alone if that estimate is negative), using the same terms as the unbuffered estimator; it says so exactly when it had too few lags. Evaluating never changes later results.",
  ["histories"], "all data words, buffer sizes, evaluation histories", "samples beyond the buffer are only kept as running lagged products, corrected at every refill; tests compare a few runs",
  ["src/geyer_estimators.c"], [("unbuffered", "src/geyer_estimators.c: ips_sigma_estimator_with_gammas, ips_value, sample_mean"), ("buffered", "src/geyer_estimators.c: geyer_ips_add, geyer_ips_value, zero_meaned_covariance")],
  [dict(harness="C16")], {"quick": "all words to length 9 over 3 alphabets through every buffer size, evaluated at every prefix; every evaluation history to length 7; periodic runs of 420 values through 7 buffer sizes; slow chains of 1500 values; units from 2^-36 to 2^36", "thorough": "words to length 10, periods to 6"}, CURVE)
P("C17", "Curves in any dimension keep their vertices through operations and files",
  "For every dimension, component layout and coordinate values: the vector operations of libnplCurve compute sums, differences, products, quotients, combinations, dot products, norms, distances, squared distances and angles as defined, in new memory, leaving their arguments alone; a curve has the vertices, colors and open/closed flags it was given (fewer than three vertices: open) with wraparound vertices to match; copies, extracted components and reversals have the vertices asked for and share nothing with the original; edge and vertex counts, arclength and subarc length are those of the polygon; a curve without constraints written with nplc_write is read back by nplc_read with the same layout, dimension and values to 15 digits, also when several curves share a file; every damaged file is refused with an error code and message, or gives a well-formed curve; freeing releases the memory.",
  ["inputs", "file contents"], "all layouts, dimensions, grid polygons, vectors; every truncation and replacement of a file", "no test calls the library at all; the line buffer of the writer is long enough only for three coordinates",
  ["src/nplCurve.c", "src/nvector.c"], [("vectors", "src/nvector.c"), ("curves", "src/nplCurve.c: nplc_new, nplc_copy, nplc_component, nplc_reverse, nplc_fix_wrap, nplc_arclength, nplc_subarc_length"), ("files", "src/nplCurve.c: nplc_read, nplc_write")],
  [dict(harness="C17", objs=["npl"], libs=["-lm"])], {"quick": "dimensions 1-12; 1-3 components of up to 4 vertices in all open/closed patterns with 0, 1 or all colors, five coordinate fillings over 16 values from 1e-300 to 6e23; all triangles on small grids in dimensions 1-3; all pairs of vectors over 2-16 values in dimensions 1-5; every truncation and every replacement of one item by 20 strings for 15 files", "thorough": "dimensions to 200, components to 5 vertices, twelve fillings, all quadrilaterals, vectors to dimension 6, 30 files"}, CURVE)
P("C19", "Random permutations and hypersimplex points are drawn exactly",
  "For every sequence of random choices, random_k_ascent_permutation (random_k_descent_permutation) fills the caller's buffer with a permutation of 1..n with exactly k ascents (descents), 0 <= k <= n-1, and every such permutation is drawn with the same probability; given the table of the probabilities (n-k)E(n-1,k-1)/E(n,k), each new largest letter makes a new ascent with exactly the tabulated probability for n up to 1000. hypersimplex_sample(k,n) returns the point of [0,1]^(n-1) with coordinate sum in [k-1,k] which Stanley's map assigns to the drawn point of the simplex and permutation, and hypercube_slice_sample(n) returns the first drawn point of [-1,1]^n with coordinate sum 0, for every 1 <= k <= n-1.",
  ["inputs"], "all sequences of random choices, sizes, numbers of ascents", "uniformity over the permutations needs the exact probability of every path through the choices; the tests draw a few permutations and count their ascents",
  ["src/kascentpermutation.c", "src/hypersimplex_sampling.c"], [("permutations", "src/kascentpermutation.c: build_choice_vector, random_k_ascent_permutation, wperm_insert_at_ascent, wperm_insert_at_descent, new_ascent_probability"), ("points", "src/hypersimplex_sampling.c: hypersimplex_sample, psi_inverse, hypercube_slice_sample")],
  [dict(harness="C19", objs=["lib", "kperm"])], {"quick": "every path of random choices, with its exact probability, for all numbers of ascents to 8 letters; the first choice on both sides of its threshold for all numbers of ascents to 60 letters and selected ones to 1000; every place of every letter for 12-60 letters; all words of 4 over 5 random numbers for hypersimplices to n=7, selected ones to n=60; words of 4 over 7 random numbers for slices to n=7, selected ones to 100; every number of rejected draws to 300, selected ones to 100001", "thorough": "9 letters; 120 letters; hypersimplices to n=9 with words of 5; words of 6 for slices"}, CURVE)
# the layer of large structured diagrams (harness/big.hpp), shared by the diagram checks
for k, what in dict(D01="every move site", D02="simplified", D03="all three texts", D06="compared with relabelled, mirrored, reversed, switched and renamed copies, all isomorphisms listed", D08="all in one store",
                    D10="all counts", D11="all queries", D12="single operations and long histories", D13="summed with small diagrams and each other at every edge pair", D14="all tangles with up to 4 (6) boundary edges",
                    D15="all slides past tangles with up to 4 (6) boundary edges", D16="shifted, reversed and transposed namings", D20="unions of up to four of them with circles").items():
    PROPS[k]["bounds"]["quick"] += "; closed braids of %s crossings with up to %s components in up to five decorations (alternating, unsigned, partly signed, reversed strands, added curls): %s" % (("8-24", "5", what) if k in ("D13", "D14", "D15") else ("8-54", "28", what))
    PROPS[k]["bounds"]["thorough"] += "; closed braids of up to 76 crossings"
# long and many-component inputs, above the sizes enumerated in full (both tiers)
for k, what in dict(C02="up to 100 components and 130 vertices per component in five colorings", C04="single edits of curves of 20-67 vertices and of 8-40 components", C05="single components of 9-130 vertices and 4-40 components",
                    C06="single rigid operations on curves of 22-67 vertices and 25-40 components, Whitten elements on 5-40 components (rotations, transpositions, reversals and products of 3-cycles in two notations)", C09="layouts of up to one component per vertex, rotation groups up to order 25 (41)",
                    C10="6-41 components", C12="lists of up to 1000 struts and 700 locations", D06="single-place corruptions of the listed maps of closed braids", D10="8-24 linked knotted components", D14="discs with 8-60 boundary edges grown in braids of 6-16 strands",
                    D15="slides past discs with 6-60 boundary edges in braids of 5-12 strands", D17="star polygons of 7-13 (17) vertices in every stride under six height rules, chains of 3-31 rings", D20="7-45 pieces", D21="every transposition of 7-100 points", D23="products of polynomials of 7-60 terms").items():
    for t in ("quick", "thorough"):
        PROPS[k]["bounds"][t] += "; " + what
for k, what in dict(C01="every single operation on six constraint lists over components of up to 33 vertices and 18 (40) components", C17="9-40 components of up to 24 vertices in three colorings", D21="permutations of different sizes compared").items():
    for t in ("quick", "thorough"):
        PROPS[k]["bounds"][t] += "; " + what
