{
'C01': "Spec: a flip (multiflip) exchanges the diagonals of its squares; words are rewritten crossing by crossing. Sessions flip along random paths with single and simultaneous flips, apply to three laminations and a homology class, and go back through inverses; `Curver.tla` additionally enumerates all components of bounded weight on S_{1,1}, S_{0,4}, S_{1,2}, S_{0,3} and a disconnected surface with every flip and every disjoint pair, each transition replayed. Oracle: word semantics.",
'C02': "Spec: `CvBase` computes vertices, components, genus, corners, squares from the permutations of oriented edges. Sessions read all of them from triangulations given in shuffled order, relabelled, flipped, rebuilt from signatures and pickles, and ask for dual trees with avoided edges. Dual trees are checked by definition.",
'C03': "Spec: the set of isometries is enumerated by TLC from its definition (bijections respecting reversal and cyclic order). Sessions compare lists and count; partial prescriptions (consistent, inconsistent, several per component, none) are compared with extension/refusal. The state machine replays relabellings exhaustively on small surfaces.",
'C04': "Spec: composition of moves acting on words. Sessions build products, powers, inverses, conjugates, slices and iterated applications of maps with all kinds of moves and compare images, packages and refusals; walks of `Curver.tla` are replayed as composed maps.",
'C05': "Spec: two maps are equal iff they send every oriented edge to the same word. Sessions compare maps with equal, nearly equal (differing by a twist, by an isometry or by orientation) and re-presented ones; hashes compared when equal; intersection matrix and vertex map recomputed.",
'C06': "Spec: tracing strands gives the multiset of words; class, weight, dual and left/right weights follow. Inputs: all vectors of small weight and random laminations, supplied as lists, dictionaries, fractions, floats, numpy integers and images.",
'C07': "Spec: minimal crossings of reduced words counted by linking pairs in the universal cover. Sessions compare all pairs among random laminations, multi-argument calls, and the state machine enumerates all pairs of bounded weight.",
'C08': "Spec: the recorded package of the shortening map is executed by the specification, must be legal, must give the reported image, each component of which must be an edge, parallel to an edge or peripheral; the short test is recomputed. Non-termination is a refusal (60 s per call).",
'C09': "Spec: `CvTwist` inserts powers of the curve at each crossing, right-handed. Multicurves with multiplicities, peripheral components and powers up to 40; homology and Torelli test; exhaustive on S_{1,1} and S_{1,2} by the state machine.",
'C10': "Spec: half twist on words about arcs with distinct ends; multiarcs with multiplicities; squares compared with the twist about the boundary; refusals exactly when ends coincide. Exhaustive on S_{0,4} for bounded weights.",
'C11': "Spec: cellular chains modulo triangles. Classes, sums, canonical forms, hashes, basis and rank, images under all kinds of maps, matrices and the Torelli test are recomputed.",
'C12': "Spec: selection of components by kind. All selections and tests, equality, sublaminations (as a set), on laminations with parallel and peripheral components.",
'C13': "Spec: `CvCrush` cuts the ribbon surface along the multicurve; the crushed triangulation recorded must be that surface up to the recorded map, images of laminations must be their restrictions, lifts must return with equal intersection numbers; separation, boundary of unions and filling together are recomputed by `CvTopo`.",
'C14': "Spec: boundary components of the ribbon neighbourhood of the words. Multiplicities, parallel copies, peripheral and trivial curves are all generated; curves beside edges are checked to be boundary components.",
'C15': "Spec: the complementary regions of the words (discs, once-punctured discs, others). Fills, polygonalisation, triangulation, end vertices and distinct ends; disconnected surfaces and untouched components included.",
'C16': "Spec: mapping class group orbits by ribbon-graph isomorphism of complementary pieces. Sessions compute types of pairs in equal and different orbits (images under random maps, multiplicity swaps), open and closed.",
'C17': "Spec: the least power of the recorded package equal to the identity, up to the bound on orders of the surface. Periodic classes are built from loops of flips closed by an isometry on connected and disconnected surfaces (permuted components), infinite order from twists.",
'C18': "Spec: vertices of images of oriented edges; numbering by sorted vertices; homomorphism on products.",
'C19': "Spec: `CvGroup` computes the quotient of the triangulated surface at an invariant polygonalisation: Euler characteristic, cone points with order, rotation and preimages. Conjugacy of periodic classes by the complete invariant (orbifold data with rotation, per orbit of components). On disconnected surfaces the action on a component is taken modulo its kernel, and data which depend on the choice of a lift of a component permutation are compared up to conjugation.",
'C20': "Spec: simplified, flip-only and isometry-first forms are executed as packages and must equal the map, be legal, and have the promised shape.",
'C21': "Spec: rebuilt objects have equal triangulations, equal action and equal packages; every kind of move (crush and lift included) is packaged and pickled.",
'C22': "Spec: `CvAlg` recomputes permutation arithmetic from functions; conjugacy by cycle type; matrices and ranks.",
'C23': "Spec: the partition is a state of the machine, every union a transition; representatives are compared as an equivalence relation only.",
'C24': "Spec: a straight line program denotes a sequence; small ones are expanded, exponentially long ones are compared through lengths and sampled positions computed from the program.",
'C25': "Spec: words are parsed by the grammar in `CvAlg`; the denotation is composed in `CvEnc`. Names which are prefixes of each other, powers, nested parentheses, separators and malformed words are generated; refusal must be a ValueError.",
'C26': "Spec: the history is the state: a register keeps the first answer to each query on each object (digests), and any later query on the object, on an equal copy built independently, or on one after other queries and derivations must give the same answer. Queries which are internal (`_`) are only compared on the same object.",
'C27': "Spec: the recorded linear piece must contain the multicurve, and on multicurves satisfying the inequalities the matrix is multiplied by TLC and compared with the word-level image.",
'C28': "Spec: relative twisting is the limit of differences of intersection numbers, computed with twists of words at a power beyond all weights. Exact when one of the two is a multicurve, within one twist when both contain arcs (where the limit itself is not an integer multiple); slopes likewise.",
'C29': "Spec: carried curves crossing each oriented edge at most once are enumerated from the corners of the track; every reported cycle is carried and crosses no edge more than twice; tight paths of length at most two are enumerated from the definition. Longer tight paths and distances are out of reach (they need the curves of arbitrary weight) and not claimed.",
'C30': "Spec: bags of words add up. Sums of pairs, lists with repetitions, dictionaries, multiples including 0, classes.",
'C31': "Spec: recovered multicurve's twist (on words) equals the map. Twists are presented as products, conjugates, simplified and flip-only forms; non-multitwists included.",
'C32': "Spec: for classes of finite order (by C17's computation) the type from the quotient orbifolds of the orbits of components: irreducible iff every quotient is a sphere with three cone points or punctures. The type of classes of infinite order is not decided (only that they are not periodic): that needs an invariant lamination search whose completeness TLC cannot decide.",
'C33': "Spec: subdivided triangulation and forgetful map on words: the carried lamination must avoid the new punctures and reduce to the old words.",
'C34': "Spec: `CvEnum` enumerates arcs disjoint from a filling multiarc from its complementary polygons, multiarcs as cliques, triangulations, flip balls, words of bounded length; compared as sets and counted for repetitions.",
'C35': "Spec: genus, punctures, essentiality, pairwise intersections of the named curves (chain, arcs between consecutive punctures), generators equal to twists and half twists; all surfaces with g<5, n<6 and the named examples in quick.",
'C36': "Spec: homogeneity: results on weights divided by d, multiplied by d, are the results of the words. Invariant laminations: the recorded flips and twists are applied by the specification to the integer rounding of the lamination and must stretch it (within 4%); a refusal is rejected only if the specification shows growth (total weight above 20000 within 13 iterations with last ratios at least 1.8). Time-outs are not judged.",
'C37': "Spec: `FirstReturn` walks the strand as a word of crossings; the closing curve is the cyclic word; refusals exactly otherwise.",
'C38': "Spec: `CvAlg!UtilOK` defines each helper by its meaning (CHOOSE of the extremal element, first hitting position, cyclic slice, left or right product of permutations, digits to the base 64); every recorded call is compared.",
}
