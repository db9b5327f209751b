"""Writes /verif/properties.jsonl and the claimed part of MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'curver/kernel/'
TESTS = 'Existing tests draw a handful of hypothesis examples from a fixed list of flip sequences on a few connected surfaces and mostly check internal consistency (inverse, associativity) rather than the meaning; '
P = []
def p(id, title, st, over, text, why, files, mech, obs, state=None, level=None, note=None):
    P.append(dict(d=dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                         anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None, **({'state': state} if state else {}))), note=note))

p('C01', 'Flips act on laminations as change of coordinates and are reversible',
  'Flipping one edge, or several edges with disjoint supports at once, gives the triangulation with the diagonals of those squares exchanged, and sends every lamination (arcs and curves, parallel or peripheral ones included) to the coordinates of the same isotopy class on the new triangulation. Applying the inverse returns the original coordinates, class and homology exactly.',
  ['inputs', 'configurations', 'programs'], 'every triangulation (disconnected, self-folded neighbours, multi-edges), every flippable edge or compatible set of edges, every integral lamination',
  TESTS + 'they check that a flip followed by its inverse is the identity, which a consistent error in both directions passes.',
  [K + 'moves.py', K + 'triangulation.py'], [('edge flip on coordinates, including negative weights and terminal arcs', K + 'moves.py: EdgeFlip.apply_lamination, MultiEdgeFlip'), ('construction of the flipped triangulation', K + 'triangulation.py: encode_flip, encode_multiflip')],
  ['coordinates, class and triangulation of the image', 'homology class of the image'])
p('C02', 'Triangulations describe the surface they are built from',
  'A triangulation built from oriented triples (or by relabelling or flipping another) has as vertices, components, genus, punctures, Euler characteristic, flippable edges, corners and squares exactly those of the glued surface, independently of the order in which the triples or their edges are listed. Two triangulations are equal exactly when their labelled triangles are, dual trees are spanning trees of the dual graph that avoid the given edges, and signatures and pickles rebuild an equal triangulation. Triples which do not use every label exactly once are refused.',
  ['inputs', 'configurations'], 'every list of triples that describes a triangulation, every relabelling and every flip path from it',
  TESTS + 'there is no reference for vertices, components or genus on unusual gluings.',
  [K + 'triangulation.py', K + 'create.py'], [('vertex, component and surface computation', K + 'triangulation.py: Triangulation.__init__, components, surface'), ('relabelling and signatures', K + 'triangulation.py: relabel_edges, sig, from_sig')],
  ['public attributes and methods of a triangulation'])
p('C03', 'Isometries are exactly the orientation-preserving label bijections',
  'The isometries reported between two triangulations are exactly the bijections of oriented edges that respect reversal and the cyclic order of every triangle, each listed once. An isometry requested by prescribing some images is the one extending them (the identity on untouched components), and is refused exactly when none exists.',
  ['inputs', 'configurations'], 'every pair of triangulations, connected or not, and every partial prescription',
  TESTS + 'only an isometry list containing the identity is checked; disconnected surfaces and inconsistent prescriptions are not covered.',
  [K + 'triangulation.py'], [('extension of a partial map across triangles', K + 'triangulation.py: isometries_to, find_isometry')], ['label maps returned', 'errors raised', 'action of the encoded relabelling'])
p('C04', 'Maps compose, invert, slice and iterate like the mappings they denote',
  'The image of a lamination under a product, inverse, power, conjugate or iterated application is what applying the factors one after another gives; products are associative, inverses cancel on both sides, and cutting a map into consecutive pieces gives maps that fit together and compose back to it. Composing or applying maps whose triangulations do not match is refused.',
  ['programs', 'inputs', 'configurations'], 'every expression built from flips, multiflips, relabellings, isometries, twists and half twists, every slice and power, every lamination',
  TESTS + 'expressions with mixed move kinds, negative powers and slices are sampled on very few surfaces.',
  [K + 'encoding.py', K + 'moves.py', K + 'triangulation.py'], [('product, inverse, power, slice', K + 'encoding.py: Encoding.__mul__, inverse, __getitem__, MappingClass.__pow__'), ('encode from a list of moves', K + 'triangulation.py: encode')], ['images of laminations', 'equality of maps', 'source and target triangulations', 'errors raised'])
p('C05', 'Map equality is isotopy and agrees with hashing',
  'Two maps between the same triangulations compare equal exactly when they send every arc and curve (with orientation) to the same image, equal maps have equal hashes, and a map is the identity exactly when it fixes every oriented edge. Identical moves compare equal, and moves that compare equal do the same. The recorded intersection matrix and vertex map of a map are those of the images of the edges and vertices.',
  ['inputs', 'programs'], 'every pair of maps, including words that differ by relations, hyperelliptic involutions and isometries that move no curve',
  TESTS + 'equality is itself the oracle of most tests.',
  [K + 'encoding.py'], [('comparison by intersection matrix and homology matrix', K + 'encoding.py: Mapping.__eq__, __hash__'), ('vertex map', K + 'encoding.py: vertex_map')], ['equality, hash, identity test', 'intersection matrix', 'vertex map'])
p('C06', 'Coordinates decompose into the right components and class',
  'For any valid coordinates, the components reported are exactly the isotopy classes of arcs and curves traced out by the normal arcs with their multiplicities, and the object has the finest class (single arc, single curve, multiarc, multicurve or mixed) that its components allow, however the numbers are supplied. Weight and dual, left and right weights are those of the normal arcs.',
  ['inputs', 'configurations'], 'every triangulation and every integral coordinate vector, negative and terminal ones included',
  TESTS + 'components are only re-summed, so wrong but consistent splittings pass.',
  [K + 'lamination.py', K + 'triangulation.py'], [('promotion through shortening', K + 'lamination.py: Lamination.promote, components'), ('corner weights', K + 'lamination.py: dual_weight, left_weight, right_weight')], ['components, multiplicities, classes', 'dual weights'])
p('C07', 'Intersection number is the geometric intersection number',
  'The intersection of two laminations is the minimal number of crossings of their arcs and curves counted with multiplicity, and is additive over several arguments.',
  ['inputs', 'configurations'], 'every pair of integral laminations, arcs, curves, parallel and peripheral ones included, on every triangulation',
  TESTS + 'symmetry and invariance under maps are tested, not the value.',
  [K + 'lamination.py'], [('intersection with a shortened lamination', K + 'lamination.py: IntegralLamination.intersection')], ['value returned'])
p('C08', 'Shortening finds short representatives by a genuine change of triangulation',
  'Shortening a lamination returns a legal sequence of moves together with its exact image, every component of which is an edge, a curve parallel to an edge, or peripheral; it terminates on every lamination. The short test answers accordingly.',
  ['inputs', 'configurations'], 'every integral lamination on every triangulation',
  TESTS + 'termination and shape of the result are only seen on small samples.',
  [K + 'lamination.py'], [('greedy reduction and Mosher flips', K + 'lamination.py: shorten, is_short')], ['package of the conjugator', 'short lamination', 'is_short'])
p('C09', 'Twists about multicurves are right Dehn twists',
  'The twist about a weighted multicurve to a power sends every arc and curve to the result of the corresponding powers of right Dehn twists about its essential components, for every power including negative and large ones. It fixes peripheral-only multicurves, acts on homology accordingly, and opposite powers are inverse.',
  ['inputs', 'configurations'], 'every multicurve, every power and every lamination',
  TESTS + 'twist relations (braid, commutation) are preserved by a wrong handedness or by a wrong power formula.',
  [K + 'twist.py', K + 'curve.py', K + 'create.py'], [('closed formula for powers of a twist', K + 'twist.py: Twist.apply_lamination'), ('conjugation to a short curve', K + 'curve.py: encode_twist')], ['images of laminations', 'equality', 'homology action'])
p('C10', 'Half twists exchange the ends of an arc and square to the Dehn twist',
  'The half twist about a multiarc whose components have pairwise distinct end punctures sends every arc and curve to its image under the right half twists, for every power; two half twists are the Dehn twist about the boundary of the neighbourhood. It is refused exactly when the ends are not distinct.',
  ['inputs', 'configurations'], 'every multiarc, every power, every lamination',
  TESTS + 'only the double half twist and braid relations are sampled.',
  [K + 'twist.py', K + 'arc.py', K + 'create.py'], [('half twist on coordinates', K + 'twist.py: HalfTwist.apply_lamination'), ('end test', K + 'arc.py: has_distinct_endpoints, encode_halftwist')], ['images of laminations', 'vertex map', 'errors raised'])
p('C11', 'Homology classes and the action on them are correct',
  'Two classes are equal exactly when their difference bounds triangles, the basis spans and has the rank of the first homology of the surface relative to its punctures, and sums, canonical forms and hashes respect this. A map acts by pushing oriented edges forward, its matrix expresses that action in the bases, and the Torelli test holds exactly when the action is trivial.',
  ['inputs', 'configurations', 'programs'], 'every integral edge chain on every triangulation, every map',
  TESTS + 'the homology action is only compared with itself.',
  [K + 'homology.py', K + 'triangulation.py', K + 'moves.py', K + 'encoding.py'], [('canonical form by a dual tree', K + 'homology.py: canonical'), ('action of the moves', K + 'moves.py, twist.py: apply_homology'), ('matrix and Torelli test', K + 'encoding.py: homology_matrix, is_in_torelli')], ['equality, canonical form, images and matrices'])
p('C12', 'Parts of a lamination are selected correctly',
  'The peripheral, non-peripheral, arc, curve and skeleton parts, and the list of sublaminations, consist of exactly the components so described with their multiplicities. The corresponding tests (empty, peripheral, non-peripheral, common component, equality) agree with them.',
  ['inputs', 'histories'], 'every integral lamination',
  TESTS + 'parts are re-added and compared with the whole.',
  [K + 'lamination.py'], [('peripheral components around vertices', K + 'lamination.py: peripheral_components'), ('selection by class', K + 'lamination.py: multiarc, multicurve, skeleton, sublaminations')], ['laminations and truth values returned'])
p('C13', 'Crushing along a multicurve and lifting back are mutually consistent',
  'Crushing along a multicurve gives the surface cut along its essential components with the cuts collapsed to punctures, sends every lamination to its restriction there, and lifting a multicurve back gives the multicurve it came from, with intersection numbers unchanged for laminations disjoint from the crushed one. A multicurve separates exactly when the crushed surface has more components, and the boundary of a neighbourhood of its union with another lamination, and whether they fill together, are computed accordingly.',
  ['inputs', 'configurations'], 'every multicurve and every lamination',
  TESTS + 'crushing is only checked to run and to round trip on disjoint curves.',
  [K + 'crush.py', K + 'curve.py'], [('tightening after a crush', K + 'crush.py: Crush.apply_lamination'), ('lift matrix', K + 'curve.py: Curve.crush'), ('union and separation', K + 'curve.py: boundary_union, fills_with, is_separating')], ['target surface', 'images under crush and lift', 'truth values'])
p('C14', 'Boundaries of laminations are boundaries of regular neighbourhoods',
  'The boundary of a lamination is the multicurve bounding a regular neighbourhood of its arcs together with two parallel copies of each of its curves, trivial curves dropped and multiplicities counted; it is disjoint from the lamination. The curve beside an edge is one of the curves bounding a neighbourhood of that edge.',
  ['inputs', 'configurations'], 'every integral lamination on every triangulation',
  TESTS + 'boundaries are only checked to be disjoint.',
  [K + 'lamination.py', K + 'arc.py', K + 'curve.py', K + 'triangulation.py'], [('walk around short arcs', K + 'arc.py: boundary'), ('edge curves', K + 'triangulation.py: edge_curve')], ['laminations returned'])
p('C15', 'Filling, polygonalisation and triangulation tests are decided correctly',
  'A lamination is reported to fill exactly when every essential curve meets it, to be a polygonalisation exactly when it is a multiarc cutting the surface into discs without punctures inside, and to be a triangulation exactly when the discs are triangles. End vertices and the distinct-ends test agree with the arcs.',
  ['inputs', 'configurations'], 'every integral lamination, also on disconnected surfaces',
  TESTS + 'the tests only assert invariance under maps.',
  [K + 'lamination.py', K + 'arc.py'], [('boundary test for filling', K + 'lamination.py: is_filling'), ('dual tree test', K + 'lamination.py: is_polygonalisation'), ('short weights', K + 'arc.py: is_triangulation')], ['truth values returned'])
p('C16', 'Topological types classify laminations up to the mapping class group',
  'Two laminations have equal topological types exactly when some orientation-preserving homeomorphism of the surface takes one to the other, multiplicities included. The closed variant does so after the punctures are filled in.',
  ['inputs', 'configurations'], 'every pair of laminations, on the same or different triangulations of homeomorphic surfaces',
  TESTS + 'only invariance under maps is tested, never that different orbits are told apart.',
  [K + 'lamination.py', K + 'utilities.py'], [('labelled partition graph in canonical form', K + 'lamination.py: topological_type')], ['equality of types'])
p('C17', 'Order and periodicity of mapping classes',
  'The order of a mapping class is the least positive power that is the identity, and zero when no power is; periodicity and the identity test agree with it. This holds on disconnected surfaces whose components are permuted.',
  ['inputs', 'configurations'], 'every mapping class, in particular conjugates of isometries of symmetric triangulations',
  TESTS + 'orders are only tested for a few named classes.',
  [K + 'encoding.py', K + 'triangulation.py'], [('search up to a bound on orders', K + 'encoding.py: order; triangulation.py: max_order')], ['order, is_periodic, is_identity'])
p('C18', 'Puncture permutations',
  'The permutation of the punctures induced by a mapping class is the one its action on the ends of arcs induces, with punctures numbered in sorted order, and it is a homomorphism.',
  ['inputs', 'programs'], 'every mapping class and product of mapping classes',
  TESTS + 'only used indirectly.',
  [K + 'encoding.py', K + 'permutation.py'], [('vertex map through images of edges', K + 'encoding.py: vertex_map, vertex_permutation')], ['permutation returned'])
p('C19', 'Finite subgroups: quotient orbifolds and conjugacy of periodic classes',
  'For a periodic mapping class the quotient orbifold data (Euler characteristic, orders, punctured or not, rotation powers, numbers of preimages) are those of the quotient of the surface by the cyclic action, and there is an invariant polygonalisation. Two periodic mapping classes are reported conjugate exactly when some homeomorphism conjugates one to the other.',
  ['inputs', 'configurations'], 'every periodic mapping class, on connected and disconnected surfaces',
  TESTS + 'conjugacy is tested for a few powers of named classes.',
  [K + 'finite.py', K + 'encoding.py'], [('unicorn search for an invariant polygonalisation', K + 'finite.py: invariant_polygonalisation'), ('signature of the quotient', K + 'finite.py: quotient_orbifold_signature')], ['signature, polygonalisation, is_conjugate_to'])
p('C20', 'Rewriting a map does not change it',
  'Simplifying a map, rewriting it by flips and isometries only, or moving its isometries to the front gives a legal sequence of moves between the same triangulations that denotes the same map, and has the promised form.',
  ['inputs', 'programs'], 'every map',
  TESTS + 'the rewritten map is compared using the equality of maps alone.',
  [K + 'encoding.py', K + 'moves.py', K + 'twist.py'], [('rewriting of twists and relabellings', K + 'encoding.py: simplify, flip_mapping, combine_isometries')], ['package of the result', 'images'])
p('C21', 'Packages, pickles and signatures reproduce the object',
  'Packaging or pickling a map or triangulation and rebuilding it gives an equal object with the same move sequence meaning, on every surface and for every kind of move.',
  ['inputs', 'programs'], 'every map and triangulation',
  TESTS + 'mixed move kinds and disconnected surfaces are rarely drawn.',
  [K + 'encoding.py', K + 'moves.py', K + 'triangulation.py', K + 'utilities.py'], [('package and encode', K + 'encoding.py: package, create_encoding'), ('signatures', K + 'triangulation.py: sig, from_sig')], ['rebuilt objects'])
p('C22', 'Permutation arithmetic',
  'Products, inverses, powers, orders, parities, matrices, lexicographic ranks, cycle types and conjugacy of permutations are those of the symmetric group, and permutations of different sizes are refused.',
  ['inputs'], 'every pair of permutations', 'The suite never tests permutations directly.',
  [K + 'permutation.py'], [('permutation arithmetic', K + 'permutation.py: Permutation')], ['values returned', 'errors raised'])
p('C23', 'Union-find maintains the partition generated by the unions',
  'After any history of unions, two items have the same representative exactly when the unions connect them; the groups listed and their number are the classes.',
  ['histories'], 'every sequence of unions of every number of items', 'The suite only runs it through other algorithms.',
  [K + 'structures.py'], [('union by rank with path compression', K + 'structures.py: UnionFind')], ['representatives, groups, length'])
p('C24', 'Straight line programs behave as the words they compress',
  'Sums, products by integers, reversals, maps, copies, indexing from either end, length, iteration, membership and reverse iteration of a straight line program agree with the sequence it denotes, even when that is exponentially longer than the program.',
  ['programs', 'inputs'], 'every expression over straight line programs', 'The suite only uses them to parse short words.',
  [K + 'structures.py'], [('compressed indexing', K + 'structures.py: StraightLineProgram')], ['values returned'])
p('C25', 'Words denote products of named mapping classes or are refused',
  'A word (with powers, parentheses, separators and case-swapped inverses) denotes the product of the named generators it spells, letters on the right acting first; a word that cannot be completely decomposed is refused with a value error. A sequence of names denotes the same product. Random words have the requested length and use only the permitted letters, and groups on the same names are equal exactly when their generators are.',
  ['inputs', 'programs'], 'every group of named twists and half twists and every string', 'The suite parses a few fixed words.',
  [K + 'mappingclassgroup.py', K + 'structures.py'], [('tokeniser and decomposition', K + 'mappingclassgroup.py: mapping_class')], ['images under the mapping class', 'errors raised'])
p('C26', 'Answers do not depend on what was asked before',
  'The value of every query on a lamination, map or triangulation is the same whatever queries were made before on it or on objects derived from it, and equal objects built independently give the same answers.',
  ['histories'], 'every order of queries on shared objects, including shortened and promoted ones that inherit cached answers', 'Tests build a fresh object for each query.',
  [K + 'decorators.py', K + 'lamination.py', K + 'encoding.py'], [('memoisation and caches moved between objects', K + 'decorators.py: memoize, topological_invariant; lamination.py: promote')], ['answers to repeated queries'])
p('C27', 'Piecewise-linear action',
  'The linear piece of a map at a multicurve contains that multicurve, and on every multicurve satisfying its inequalities the linear action gives exactly the coordinates of the image; multicurves outside are refused.',
  ['inputs', 'programs'], 'every map made of flips and isometries, every multicurve, every multicurve in the cone', 'Tests compare the action at the base point only.',
  [K + 'encoding.py', K + 'moves.py', K + 'PL.py'], [('composition of linear pieces', K + 'PL.py: PartialLinearFunction.__mul__; moves.py: pl_action')], ['action and condition matrices', 'errors raised'])
p('C28', 'Slopes and relative twisting measure twisting',
  'The relative twisting of one lamination about a curve relative to another equals the difference of intersection numbers after large opposite twists, divided by twice the product of intersections with the curve (exactly when one of the two is a multicurve, within one twist when both contain arcs); so when it is exact it is unchanged by applying a map to everything and drops by exactly the power when the first lamination is twisted. Slopes change by one under a right twist outside [-1, 1], and both are refused for peripheral or disjoint input.',
  ['inputs'], 'every essential curve and pair of laminations meeting it', 'Tests use small samples of one direction only.',
  [K + 'curve.py'], [('slope from the annulus', K + 'curve.py: slope'), ('limit of intersections', K + 'curve.py: relative_twisting')], ['fractions returned', 'errors raised'])
p('C29', 'Vertex cycles and short tight paths',
  'Every vertex cycle reported for a lamination is a single curve carried by its train track that crosses no edge more than twice, and every curve carried by the track which crosses each edge at most once in each direction is reported; the quasiconvex hull computed from two curves contains both. The tight paths of length at most two between two multicurves are exactly those that the definition of tightness allows.',
  ['inputs'], 'every multicurve and every pair of multicurves', 'Tests only check that results are curves.',
  [K + 'curve.py', K + 'curvegraph.py'], [('simple cycles of the train track', K + 'curve.py: vertex_cycles'), ('tightening', K + 'curvegraph.py: tight_paths')], ['sets returned'])
p('C30', 'Sums and multiples of laminations',
  'Adding laminations, summing lists or dictionaries of them with multiplicities, and multiplying by non-negative integers add up coordinates, and the result has the components and class those coordinates have. Negative multiples and laminations on other triangulations are refused.',
  ['inputs'], 'every finite family of laminations with multiplicities, repeated entries included', 'Tests never repeat a lamination in a list nor take multiples of mixed laminations.',
  [K + 'lamination.py', K + 'triangulation.py'], [('sums without intermediate values', K + 'triangulation.py: sum, disjoint_sum'), ('multiples', K + 'lamination.py: __mul__')], ['laminations returned, their class and components'])
p('C31', 'Multitwists are recognised and their multicurve recovered',
  'For the twist about any weighted essential multicurve, however it is presented, the multicurve recovered twists to the same mapping class and has the same weights; any multicurve reported for a mapping class twists to it.',
  ['inputs', 'programs'], 'every multitwist and conjugates, products and powers of them', 'Tests recover twists about freshly drawn short curves only.',
  [K + 'encoding.py'], [('comparison of iterates', K + 'encoding.py: extract_twisting_multicurve, is_multitwist')], ['multicurve returned', 'errors raised'])
p('C33', 'Adding a puncture inside triangles',
  'Subdividing chosen triangles gives the triangulation with one new puncture in each, and every lamination is carried to the lamination that avoids the new punctures, which forgets back to it.',
  ['inputs', 'configurations'], 'every triangulation, choice of triangles and lamination', 'Covered by a couple of examples.',
  [K + 'triangulation.py', K + 'crush.py'], [('linear lift to the subdivided triangulation', K + 'triangulation.py: encode_pachner_1_3')], ['target triangulation', 'images'])
p('C34', 'Enumerations are complete and without repetition',
  'The flip sequences of bounded length, the arcs, multiarcs and triangulations disjoint from a filling multiarc, the triangulations within a flip distance, and the elements of a bounded ball of the group are each enumerated completely and only once.',
  ['inputs'], 'every small triangulation and every filling multiarc on it', 'Tests only count a few cases.',
  [K + 'triangulation.py', K + 'arc.py', K + 'mappingclassgroup.py'], [('paths in the dual graph', K + 'arc.py: all_disjoint_arcs'), ('ball of flips', K + 'arc.py: explore_ball; triangulation.py: all_encodings'), ('shortlex exploration', K + 'mappingclassgroup.py: cayley')], ['collections returned'])
p('C35', 'Standard surfaces and their generators',
  'Loading a genus and a number of punctures gives a triangulation of that surface whose named curves and arcs are essential with the standard intersection pattern, and whose generators are the right twists and half twists about them, so that commutation, braid and chain relations hold.',
  ['configurations'], 'every genus and number of punctures that can be loaded', 'Relations are tested for a few surfaces.',
  ['curver/load.py', K + 'mappingclassgroup.py'], [('tables of standard surfaces', 'curver/load.py'), ('twists of named curves', K + 'mappingclassgroup.py: __init__')], ['surface, named curves and arcs, generators'])

p('C32', 'Type of periodic classes',
  'A mapping class of finite order is reported periodic, never pseudo-Anosov, and reducible exactly when some component of the quotient of the surface by it is not a sphere with exactly three cone points or punctures; classes of infinite order are not reported periodic.',
  ['inputs', 'configurations'], 'every mapping class of finite order, on disconnected surfaces too', 'Types are never tested for disconnected surfaces.',
  [K + 'encoding.py', K + 'finite.py'], [('genus of the quotient from its cone points', K + 'encoding.py: is_reducible'), ('orbifold Euler characteristic', K + 'finite.py: quotient_orbifold_signature')], ['type and truth values returned'])
p('C36', 'Real weights and invariant laminations',
  'Maps and measurements are homogeneous: a lamination whose weights are divided by a positive number has the image, dual weights, peripheral part and intersection with curves of the original divided by that number, and the same slopes. A projectively invariant lamination returned for a mapping class is a lamination of curves stretched by the returned factor, which is more than one; none is refused to a class under which weights grow exponentially, and refusals are value errors.',
  ['inputs', 'programs'], 'every lamination with rational or real algebraic weights, and every mapping class', 'Tests use three fixed mapping classes made of single twists.',
  [K + 'encoding.py', K + 'PL.py', K + 'lamination.py', K + 'twist.py', K + 'curve.py'], [('eigenvectors of the linear pieces', K + 'encoding.py: projective_invariant_lamination'), ('real weights in powers of twists', K + 'twist.py: apply_lamination')], ['weights and factor returned', 'errors raised'])
p('C37', 'Following a lamination to a curve',
  'Starting at any crossing of a lamination with an oriented edge, tracing follows the strand until it first crosses the edge again in the same direction, and returns the curve closing this up along the edge exactly when that happens within the given number of steps and the strand has not crossed the edge backwards in between the two crossings; in all other cases it is refused with a value error.',
  ['inputs'], 'every lamination, edge, crossing and length', 'Tracing is only reached by tests through shortening heavy laminations.',
  [K + 'lamination.py'], [('position bounds on the two sides of the edge', K + 'lamination.py: trace_curve')], ['curve returned', 'errors raised'])
p('C38', 'Helper functions',
  'Maxima of minima, bounded and tied maxima, slices of cyclic orders, products in either order, base 64 numerals, halves, sorted labels and edges compared, hashed and reversed give the values their definitions state, for every input, and the documented value errors otherwise.',
  ['inputs'], 'every finite family of integers, permutations and labels', 'The suite tests a handful of fixed values of these helpers.',
  [K + 'utilities.py', K + 'triangulation.py'], [('helpers of the kernel', K + 'utilities.py')], ['values returned', 'errors raised'])

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x['d']) + '\n')

NA = {}
sys.path.insert(0, os.path.join(ROOT, 'harness'))
CLAIMED = json.load(open(os.path.join(ROOT, 'tools', 'claimed.json')))
man = dict(version=1, setup_cmd='bash setup.sh',
  checks=[dict(property=x['d']['id'], quick_cmd=f"bash check.sh {x['d']['id']} --tier quick", thorough_cmd=f"bash check.sh {x['d']['id']} --tier thorough",
    technique='TLA+ specification; TLC validates traces recorded from the real code' + CLAIMED[x['d']['id']].get('tech', ''), level='model_checking', level_note=CLAIMED[x['d']['id']].get('note', 'Every recorded call of the real code on generated inputs is recomputed by TLC from the word-level TLA+ definitions and compared; bounded by the inputs generated (seeded), trusts TLC and the definitions in spec/.')) for x in P if x['d']['id'] in CLAIMED],
  not_applicable=[dict(property=x['d']['id'], reason=json.load(open(os.path.join(ROOT, 'tools', 'na.json'))).get(x['d']['id'], 'check not built yet')) for x in P if x['d']['id'] not in CLAIMED],
  notes='No hooks: the checks drive the public API only. See DESIGN.md.')
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
