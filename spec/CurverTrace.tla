---------------------------- MODULE CurverTrace ----------------------------
(***************************************************************************)
(* Trace validation.  A session is a sequence of public calls made on real *)
(* objects, each recorded with its arguments and result.  The state holds  *)
(* the specification's own view of every object (registers); each step     *)
(* consumes one call, computes what the specification allows and compares. *)
(***************************************************************************)
EXTENDS CvEnum, CvAlg, Json, IOUtils

Log == JsonDeserialize(IOEnv.CVTRACE)      \* a sequence of sessions [id, T, ev]

VARIABLES sid, pc, env, verdict
vars == <<sid, pc, env, verdict>>

------------------------------------------------------------------------------
(* Registers: T triangulations, L laminations [t, w], E encodings [s, t, mv], H chains [t, v]. *)
Empty == [T |-> <<>>, L |-> <<>>, E |-> <<>>, H |-> <<>>, S |-> <<>>]
Ok == [v |-> "", T |-> <<>>, L |-> <<>>, E |-> <<>>, H |-> <<>>, S |-> <<>>]
Bad(s) == [Ok EXCEPT !.v = s]
Cond(c, s) == IF c THEN Ok ELSE Bad(s)
(* the first failing clause of a sequence of <<condition, name>>: conditions must be lazily usable *)
WithL(r, l) == [r EXCEPT !.L = <<l>>]
WithE(r, e) == [r EXCEPT !.E = <<e>>]

IsErr(r) == "err" \in DOMAIN r
Raises(ev, kind, ok) == IF IsErr(ev.r) THEN Cond(ok, "raised " \o ev.r.err) ELSE Bad("no error")

ObsT(k) == IF IsTriples(Log[sid].T[k]) THEN MkTri(Log[sid].T[k]) ELSE [z |-> 0, nx |-> <<>>]   \* an observed triangulation
LT(l) == l.t

------------------------------------------------------------------------------
(* Classes. *)
ClassesOf(D) ==
  IF D = <<>> THEN {"IntegralLamination", "Lamination", "MultiArc", "MultiCurve"}
  ELSE LET allA == \A i \in 1..Len(D) : IsArcKind(D[i].x)
           allC == \A i \in 1..Len(D) : IsCurveKind(D[i].x)
           one == Len(D) = 1 /\ D[1].n = 1
       IN IF allA THEN {IF one THEN "Arc" ELSE "MultiArc"}
          ELSE IF allC THEN {IF one THEN "Curve" ELSE "MultiCurve"}
          ELSE {"IntegralLamination"}

(* an observed lamination r = [w, c, t] against an expected one *)
LamIs(T, w, D, r) ==
  IF IsErr(r) THEN "raised " \o r.err
  ELSE IF r.w # w THEN "coordinates"
  ELSE IF ObsT(r.t) # T THEN "wrong triangulation"
  ELSE IF r.c \notin ClassesOf(D) THEN "class"
  ELSE ""
(* same without the class *)
LamIsW(T, w, r) ==
  IF IsErr(r) THEN "raised " \o r.err
  ELSE IF r.w # w THEN "coordinates"
  ELSE IF ObsT(r.t) # T THEN "wrong triangulation" ELSE ""

EncClass(S, T, real) == IF S = T THEN "MappingClass" ELSE "Mapping"
EncIs(S, T, r) ==
  IF IsErr(r) THEN "raised " \o r.err
  ELSE IF ObsT(r.s) # S THEN "source triangulation"
  ELSE IF ObsT(r.t) # T THEN "target triangulation"
  ELSE IF r.c # EncClass(S, T, TRUE) THEN "class of the map" ELSE ""

(* Short: peripheral, parallel to an edge, or the boundary curve on one side of a loop edge. *)
ShortComp(T, x) ==
  \/ x.k = "p"
  \/ x.k = "c" /\ (IsPeripheral(T, x) \/ \E l \in Labels(T.z) : IsLoopEdge(T, l) /\ EdgeCurveWeights(T, l) = CompWeights(T.z, x))
ArcsSel(D) == SelectSeq(D, LAMBDA m : IsArcKind(m.x))
Components2(ms) == {<<ms[i].w, ms[i].n>> : i \in 1..Len(ms)}
DecPairs(T, D) == {<<CompWeights(T.z, D[i].x), D[i].n>> : i \in 1..Len(D)}
SubD(D, P(_)) == SelectSeq(D, P)

------------------------------------------------------------------------------
(* Triangulations. *)
SameCycle(s, t) == Len(s) = Len(t) /\ \E i \in 1..Len(s) : Rot(s, i) = t
TriObs(T, r) ==
  IF IsErr(r) THEN "raised " \o r.err ELSE
  LET comps == Components(T) IN
  IF ~IsTriples(r.tri) THEN "not a triangulation"
  ELSE IF MkTri(r.tri) # T THEN "triangles"
  ELSE IF r.z # T.z \/ r.nt # (2 * T.z) \div 3 THEN "sizes"
  ELSE IF r.chi # -(T.z \div 3) THEN "Euler characteristic"
  ELSE IF r.nv # Cardinality(VertexReps(T)) \/ Len(r.verts) # r.nv THEN "number of vertices"
  ELSE IF \E i \in 1..Len(r.verts) : ~SameCycle(r.verts[i], VertexSeq(T, r.verts[i][1])) THEN "vertices"
  ELSE IF {ToSet(r.verts[i]) : i \in 1..Len(r.verts)} # {VertexSet(T, l) : l \in Labels(T.z)} THEN "vertices"
  ELSE IF Len(r.comps) # Cardinality(comps) \/ {ToSet(r.comps[i]) : i \in 1..Len(r.comps)} # comps THEN "components"
  ELSE IF r.conn # (Cardinality(comps) = 1) THEN "connectedness"
  ELSE IF \E i \in 1..Len(r.surf) : LET C == ToSet(r.surf[i].c) IN
            C \notin comps \/ r.surf[i].g # CompGenus(T, C) \/ r.surf[i].p # CompPunctures(T, C) \/ r.surf[i].chi # CompChi(C)
       THEN "surface"
  ELSE IF Len(r.surf) # Cardinality(comps) THEN "surface"
  ELSE IF ToSet(r.flip) # {l \in Labels(T.z) : Flippable(T, l)} THEN "flippable edges"
  ELSE IF \E i \in 1..Len(r.sq) : Square(T, r.sq[i][5]) # SubSeq(r.sq[i], 1, 4) THEN "square"
  ELSE IF \E i \in 1..Len(r.corner) : LET l == r.corner[i][1] IN r.corner[i] # <<l, Nx(T, l), Pv(T, l)>> THEN "corners"
  ELSE ""

(* a maximal tree of the dual graph avoiding some edges: acyclic and as large as possible *)
RECURSIVE TriFlood(_, _, _, _)
TriFlood(T, idxs, front, seen) ==
  IF front = {} THEN seen
  ELSE LET nw == {TriRep(T, Rev(l)) : l \in {k \in Labels(T.z) : Idx(k) \in idxs /\ TriRep(T, k) \in front}} \ seen
       IN TriFlood(T, idxs, nw, seen \cup nw)
RECURSIVE CountClasses(_, _, _)
CountClasses(T, idxs, todo) ==
  IF todo = {} THEN 0 ELSE
  LET r == CHOOSE x \in todo : TRUE IN 1 + CountClasses(T, idxs, todo \ TriFlood(T, idxs, {r}, {r}))
DualClasses(T, idxs) == CountClasses(T, idxs, {TriRep(T, l) : l \in Labels(T.z)})
IsDualTree(T, tree, avoid) ==
  LET nt == (2 * T.z) \div 3 IN
  /\ tree \cap avoid = {}
  /\ tree \subseteq 0..(T.z - 1)
  /\ DualClasses(T, tree) = nt - Cardinality(tree)                         \* acyclic
  /\ DualClasses(T, tree) = DualClasses(T, (0..(T.z - 1)) \ avoid)          \* maximal

------------------------------------------------------------------------------
(* Isometries. *)
MapOf(pairs) == PairsToFcn({<<pairs[i][1], pairs[i][2]>> : i \in 1..Len(pairs)})
------------------------------------------------------------------------------
(* One step. *)
RunTri(ev, T(_), E(_)) ==
  CASE ev.op = "tri" -> [Cond(~IsErr(ev.r) /\ ObsT(ev.r.t) = MkTri(ev.ts), "triangulation differs from the triples") EXCEPT !.T = <<MkTri(ev.ts)>>]
    [] ev.op = "badtri" ->      \* accepted exactly when every label is used exactly once
         LET n == Len(ev.ts) z == (3 * n) \div 2 all == TLCEval([i \in 1..(3 * n) |-> ev.ts[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]]) IN
         Cond(IsErr(ev.r) = ~(2 * z = 3 * n /\ ToSet(all) = Labels(z)), "triples accepted or refused")
    [] ev.op = "triobs" -> Bad(TriObs(T(ev.t), ev.r))
    [] ev.op = "trisig" -> Cond(~IsErr(ev.r) /\ (\A i \in 1..Len(ev.r.ts) : ObsT(ev.r.ts[i]) = T(ev.t)) /\ (\A i \in 1..Len(ev.r.eq) : ev.r.eq[i]), "rebuilt triangulation")
    [] ev.op = "trieq" -> Cond(~IsErr(ev.r) /\ ev.r.b = (T(ev.t) = T(ev.u)) /\ (T(ev.t) = T(ev.u) => ev.r.h) /\ ev.r.s = (T(ev.t) = T(ev.u)), "equality of triangulations")
    [] ev.op = "tree" -> Cond(~IsErr(ev.r) /\ IsDualTree(T(ev.t), ToSet(ev.r.x), ToSet(ev.av)), "dual tree")
    [] ev.op = "iso" ->     \* all isometries
         LET want == AllIsometries(T(ev.t), T(ev.u)) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE LET got == {SeqToMap(ev.r.ps[i]) : i \in 1..Len(ev.r.ps)} IN
              IF got \ want # {} THEN Bad("not an isometry")
              ELSE IF want \ got # {} THEN Bad("isometry missed")
              ELSE IF Len(ev.r.ps) # Cardinality(got) THEN Bad("isometry repeated")
              ELSE Cond(ev.r.b = (want # {}), "is_isometric_to")
    [] ev.op = "fiso" ->
         LET want == FindIso(T(ev.t), T(ev.u), ev.m) IN
         IF IsErr(ev.r) THEN Cond(want = {} /\ ev.r.err = "ValueError", "isometry not found: " \o ev.r.err)
         ELSE Cond({SeqToMap(ev.r.p)} = want, "wrong isometry")
    [] OTHER -> Bad("unknown event")

RunLam(ev, T(_), L(_)) ==
  CASE ev.op = "lam" ->          \* create a lamination
         LET t == T(ev.t) IN
         IF ~ValidWeights(t, ev.w) THEN Bad("harness: invalid weights")
         ELSE WithL(Bad(LamIs(t, ev.w, Decompose(t, ev.w), ev.r)), [t |-> ev.t, w |-> ev.w])
    [] ev.op = "comp" ->
         LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF Components2(ev.r.ms) # DecPairs(t, D) \/ Len(ev.r.ms) # Len(D) THEN Bad("components")
         ELSE IF \E i \in 1..Len(D) : \E j \in 1..Len(ev.r.ms) :
                   ev.r.ms[j].w = CompWeights(t.z, D[i].x) /\ ev.r.ms[j].c # (IF IsArcKind(D[i].x) THEN "Arc" ELSE "Curve")
              THEN Bad("class of a component")
         ELSE Cond(ev.r.n = SumSeq(TLCEval([i \in 1..Len(D) |-> D[i].n])), "number of components")
    [] ev.op = "int" ->
         LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE Cond(ev.r.x = SumSeq(TLCEval([i \in 1..Len(ev.ms) |-> Inter(t, D, Decompose(t, L(ev.ms[i]).w))])), "intersection number")
    [] ev.op = "pick" ->          \* one component of l, as returned by the implementation
         LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w)
             c == {i \in 1..Len(D) : MultiWeights(t.z, <<[x |-> D[i].x, n |-> 1]>>) = ev.r.w} IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF c = {} THEN Bad("not a component")
         ELSE WithL(Bad(LamIs(t, ev.r.w, <<[x |-> D[CHOOSE i \in c : TRUE].x, n |-> 1]>>, ev.r)), [t |-> l.t, w |-> ev.r.w])
    [] ev.op = "part" ->          \* sublaminations chosen by kind
         LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w)
             sel == CASE ev.what = "peripheral" -> SelectSeq(D, LAMBDA m : IsPeripheral(t, m.x))
                      [] ev.what = "non_peripheral" -> SelectSeq(D, LAMBDA m : ~IsPeripheral(t, m.x))
                      [] ev.what = "multiarc" -> ArcsSel(D)
                      [] ev.what = "multicurve" -> CurvesOf(D)
                      [] ev.what = "skeleton" -> TLCEval([i \in 1..Len(D) |-> [x |-> D[i].x, n |-> 1]])
             w == MultiWeights(t.z, sel)
         IN WithL(Bad(LamIs(t, w, sel, ev.r)), [t |-> l.t, w |-> w])
    [] ev.op = "isper" -> LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w) IN
         Cond(~IsErr(ev.r) /\ ev.r.p = (\A i \in 1..Len(D) : IsPeripheral(t, D[i].x))
              /\ ev.r.np = (\A i \in 1..Len(D) : ~IsPeripheral(t, D[i].x)) /\ ev.r.e = (D = <<>>), "peripheral test")
    [] ev.op = "nocommon" -> LET l == L(ev.l) m == L(ev.m) t == T(l.t) D == Decompose(t, l.w) E == Decompose(t, m.w) IN
         Cond(~IsErr(ev.r) /\ ev.r.b = ({D[i].x : i \in 1..Len(D)} \cap {E[i].x : i \in 1..Len(E)} = {}), "common components")
    [] ev.op = "dual" ->          \* dual weights of every oriented edge: the corner opposite to it
         LET l == L(ev.l) t == T(l.t)
             dw(k) == IF Terminals(t, l.w, Pv(t, k)) > 0 THEN -Terminals(t, l.w, Pv(t, k)) ELSE CornerArcs(t, l.w, Pv(t, k)) IN
         Cond(~IsErr(ev.r) /\ \A i \in 1..Len(ev.r.d) : ev.r.d[i] = dw(i - 1 - t.z)
               /\ ev.r.lw[i] = dw(Nx(t, i - 1 - t.z)) /\ ev.r.rw[i] = dw(Pv(t, i - 1 - t.z)), "dual weights")
    [] ev.op = "weight" -> LET l == L(ev.l) IN Cond(~IsErr(ev.r) /\ ev.r.x = SumSeq(TLCEval([i \in 1..Len(l.w) |-> Pos(l.w[i])])), "weight")
    [] ev.op = "lameq" -> LET l == L(ev.l) m == L(ev.m) b == l.w = m.w /\ T(l.t) = T(m.t) IN
         Cond(~IsErr(ev.r) /\ ev.r.b = b /\ (b => ev.r.h), "equality of laminations")
    [] ev.op = "sum" ->           \* T.sum / disjoint_sum / + with multiplicities; geometric sum of coordinates
         IF \E i \in 1..Len(ev.ls) : T(L(ev.ls[i]).t) # T(ev.t) THEN Cond(IsErr(ev.r) /\ ev.r.err = "ValueError", "added laminations on different triangulations") ELSE
         IF \E i \in 1..Len(ev.ks) : ev.ks[i] < 0 THEN Cond(IsErr(ev.r) /\ ev.r.err = "ValueError", "a negative multiple was accepted") ELSE
         LET t == T(ev.t)
             w == FoldLeft(LAMBDA acc, i : AddW(acc, ScaleW(ev.ks[i], L(ev.ls[i]).w)), ZeroW(t.z), TLCEval([i \in 1..Len(ev.ls) |-> i])) IN
         WithL(Bad(LamIs(t, w, Decompose(t, w), ev.r)), [t |-> ev.t, w |-> w])
    [] ev.op = "sub" ->           \* sublaminations: every nonempty set of components, each once
         LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w)
             want == {MultiWeights(t.z, SetToSeq({[x |-> D[i].x, n |-> 1] : i \in S})) : S \in (SUBSET (1..Len(D))) \ {{}}} IN
         Cond(~IsErr(ev.r) /\ {ev.r.ws[i] : i \in 1..Len(ev.r.ws)} = want, "sublaminations")
    [] ev.op = "bnd" ->
         LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w) w == BoundaryW(t, D) IN
         WithL(Bad(LamIs(t, w, Decompose(t, w), ev.r)), [t |-> l.t, w |-> w])
    [] ev.op = "fill" ->
         LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         \* without any essential curve on the surface, whether a lamination without arcs fills is a matter of convention
         ELSE IF ev.r.f # Filling(t, D) /\ ((\E i \in 1..Len(D) : IsArcKind(D[i].x)) \/ (\E C \in Components(t) : ~IsS03(t, C))) THEN Bad("is_filling")
         ELSE Cond(ev.r.p = Polygonal(t, D), "is_polygonalisation")
    [] ev.op = "istri" -> LET l == L(ev.l) t == T(l.t) IN
         Cond(~IsErr(ev.r) /\ ev.r.b = IsTriangulationD(t, Decompose(t, l.w)), "is_triangulation")
    [] ev.op = "ends" -> LET l == L(ev.l) t == T(l.t) D == Decompose(t, l.w) IN
         Cond(~IsErr(ev.r) /\ ev.r.b = DistinctEnds(t, D) /\ {VRep(t)[x] : x \in ToSet(ev.r.vs)} = VertexOn(t, ArcsOf(D)), "end vertices")
    [] ev.op = "toptype" ->       \* topological types of several laminations, as the numbers of their classes (0: refused)
         LET D(i) == Decompose(T(L(ev.ls[i]).t), L(ev.ls[i]).w) t(i) == T(L(ev.ls[i]).t)
             ok(i) == ~ev.closed \/ ClosedOK(t(i), D(i))
             st == TLCEval([i \in 1..Len(ev.ls) |-> IF ~ok(i) THEN <<>> ELSE IF ev.closed THEN ClosedStructure(t(i), D(i)) ELSE Structure(t(i), D(i))])
             n == Len(ev.ls) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF \E i \in 1..n : (ev.r.cls[i] = 0) = ok(i) THEN Bad("topological type refused")
         ELSE IF \E i \in 1..n : \E j \in (i + 1)..n : ok(i) /\ ok(j) /\ ev.r.cls[i] = ev.r.cls[j] /\ ~SameOrbit(st[i], st[j]) THEN Bad("equal types in different orbits")
         ELSE Cond(\A i \in 1..n : \A j \in (i + 1)..n : ok(i) /\ ok(j) /\ SameOrbit(st[i], st[j]) => ev.r.cls[i] = ev.r.cls[j], "different types in one orbit")
    [] ev.op = "real" ->          \* the lamination l with every weight divided by N; answers multiplied back by N (CV halves: 2N for the dual weights)
         LET l == L(ev.l) t == T(l.t) r == ev.r w == l.w
             D == Decompose(t, w)
             dw(k) == IF Terminals(t, w, Pv(t, k)) > 0 THEN -Terminals(t, w, Pv(t, k)) ELSE CornerArcs(t, w, Pv(t, k))
             bad == {i \in 1..Len(ev.cs) : LET C == Decompose(t, L(ev.cs[i]).w) n == Inter(t, C, D) IN
                       \/ r.int[i] # n
                       \/ LET refused == n = 0 \/ IsPeripheral(t, C[1].x) IN IF refused THEN r.sl[i] # <<>> ELSE Len(r.sl[i]) # 4 \/ r.sl[i][1] # r.sl[i][3] \/ r.sl[i][2] # r.sl[i][4]} IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF r.w # w \/ r.wt # SumSeq(TLCEval([i \in 1..Len(w) |-> Pos(w[i])])) THEN Bad("weights")
         ELSE IF \E i \in 1..Len(r.d) : r.d[i] # dw(i - 1 - t.z) THEN Bad("dual weights")
         ELSE IF r.per # MultiWeights(t.z, SelectSeq(D, LAMBDA m : IsPeripheral(t, m.x))) THEN Bad("peripheral part")
         ELSE Cond(bad = {}, "intersection with a curve, or slope about it")
    [] ev.op = "trace" ->         \* follow the lamination from position i of the oriented edge e for at most n steps, and close up
         LET U == T(L(ev.l).t) x == ClosedUp(U, L(ev.l).w, ev.e, ev.i, ev.n) r == ev.r IN
         IF ~x.ok THEN Cond(IsErr(r) /\ r.err = "ValueError", "closed up")
         ELSE IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE LET D == Decompose(U, r.w) IN
              Cond(ObsT(r.t) = U /\ r.c = "Curve" /\ ValidWeights(U, r.w) /\ Len(D) = 1 /\ D[1].n = 1 /\ D[1].x = NF(U, [k |-> "c", w |-> TLCEval(x.w)]), "another curve")
    [] ev.op = "slope" ->         \* slopes of the images of m under the powers ev.ks (consecutive) of the twist about the curve l
         LET l == L(ev.l) m == L(ev.m) t == T(l.t) c == Decompose(t, l.w) n == Inter(t, c, Decompose(t, m.w)) r == ev.r
             bad == IsPeripheral(t, c[1].x) \/ n = 0
             num(i) == (r.q[i][1] * n) \div r.q[i][2] IN
         IF IsErr(r) THEN Cond(bad /\ r.err = "ValueError", "raised " \o r.err)
         ELSE IF bad THEN Bad("slope about a peripheral or disjoint curve")
         ELSE IF \E i \in 1..Len(r.q) : n % r.q[i][2] # 0 THEN Bad("denominator of a slope")
         ELSE IF \E i \in 1..(Len(r.q) - 1) : Abs(num(i)) > n /\ num(i + 1) # num(i) + n THEN Bad("slope after a right twist")
         ELSE IF \E i \in 1..(Len(r.q) - 1) : num(i + 1) < -n /\ num(i) # num(i + 1) - n THEN Bad("slope before a right twist")
         \* within [-1, 1] for at most two consecutive powers, and the twist carries everything from far left to far right
         ELSE Cond(num(1) < -n /\ num(Len(r.q)) > n, "slope after large twists")
    [] ev.op = "reltw" ->         \* relative twisting of b about the curve l relative to c: asymptotic difference of intersection numbers
         LET l == L(ev.l) t == T(l.t) a == Decompose(t, l.w) b == Decompose(t, L(ev.b).w) c == Decompose(t, L(ev.c).w) r == ev.r
             ab == Inter(t, a, b) ac == Inter(t, a, c) N == 2 * Inter(t, b, c) + 3
             v == WithPositions(t, a[1].x)
             f(k) == SumSeq(TLCEval([i \in 1..Len(b) |-> b[i].n * Inter(t, <<[x |-> NF(t, DehnTwist(t, v, k, b[i].x)), n |-> 1]>>, c)]))
             bad == IsPeripheral(t, a[1].x) \/ ab = 0 \/ ac = 0 IN
         IF IsErr(r) THEN Cond(bad /\ r.err = "ValueError", "raised " \o r.err)
         ELSE IF bad THEN Bad("relative twisting about a peripheral or disjoint curve")
         \* the bound 2 i(b, c) on the powers is only asymptotic when b or c is a multicurve: two arcs with common ends may be off by one twist
         ELSE LET d == r.q[1] * 2 * ab * ac - (f(-N) - f(N)) * r.q[2]
                  closed(z) == \A i \in 1..Len(z) : ~IsArcKind(z[i].x) IN
              Cond(IF closed(b) \/ closed(c) THEN d = 0 ELSE Abs(d) <= 2 * ab * ac * r.q[2], "relative twisting")
    [] ev.op = "edgecurve" ->     \* one of the curves bounding an edge, both from the two orientations
         LET t == T(ev.t) a == EdgeCurveWeights(t, ev.e) b == EdgeCurveWeights(t, Rev(ev.e)) IN
         Cond(~IsErr(ev.r) /\ {ev.r.w, ev.r.w2} = {a, b}, "edge curve")
    [] OTHER -> Bad("unknown event")

(* a recorded polygonalisation; a recorded signature as a bag (chi times the order of the group n) *)
GoodPoly(S, w) == ValidWeights(S, w) /\ Polygonal(S, Decompose(S, w))
SigOf(sig, n) ==
  Bag(TLCEval([i \in 1..Len(sig) |->
    [chi |-> (sig[i].num * n) \div sig[i].den, m |-> sig[i].m,
     cones |-> Bag(TLCEval([j \in 1..Len(sig[i].cones) |-> LET x == sig[i].cones[j] IN [p |-> x.p, c |-> x.c, h |-> ToSet(x.h), n |-> x.n]]))]]))

(* a flip-graph move sequence recorded from the implementation, as spec moves *)
Adopt(S, pkg) == ItemMoves(S, pkg)

RunEnc(ev, T(_), L(_), E(_), nT) ==
  CASE ev.op = "enc" ->           \* encode a sequence of items given in application order
         LET S == T(ev.t) IN IF ~ItemsOK(S, ev.items) THEN Bad("harness: illegal items") ELSE
         LET mv == ItemMoves(S, ev.items) U == EncTgt(S, mv) IN
         [Bad(EncIs(S, U, ev.r)) EXCEPT !.T = <<U>>, !.E = <<[s |-> ev.t, t |-> nT + 1, mv |-> mv]>>]
    [] ev.op = "tw" ->            \* Dehn multitwist
         LET l == L(ev.l) S == T(l.t) IN
         [Bad(EncIs(S, S, ev.r)) EXCEPT !.E = <<[s |-> l.t, t |-> l.t, mv |-> <<[op |-> "t", w |-> l.w, k |-> ev.k]>>]>>]
    [] ev.op = "ht" ->
         LET l == L(ev.l) S == T(l.t) ok == DistinctEnds(S, Decompose(S, l.w)) IN
         IF ~ok THEN Cond(IsErr(ev.r) /\ ev.r.err = "ValueError", "half twist about an arc from a puncture to itself")
         ELSE [Bad(EncIs(S, S, ev.r)) EXCEPT !.E = <<[s |-> l.t, t |-> l.t, mv |-> <<[op |-> "h", w |-> l.w, k |-> ev.k]>>]>>]
    [] ev.op = "mul" ->           \* ev.a * ev.b: b first
         LET a == E(ev.a) b == E(ev.b) IN
         IF T(a.s) # T(b.t) THEN Cond(IsErr(ev.r) /\ ev.r.err = "ValueError", "composing maps that do not match")
         ELSE LET mv == b.mv \o a.mv IN
              WithE(Bad(IF ~IsErr(ev.r) /\ \E i \in 1..Len(mv) : mv[i].op \in {"crush", "lift"}
                        THEN (IF ObsT(ev.r.s) # T(b.s) \/ ObsT(ev.r.t) # T(a.t) THEN "triangulations" ELSE IF ev.r.c # "Encoding" THEN "class of the map" ELSE "")
                        ELSE EncIs(T(b.s), T(a.t), ev.r)), [s |-> b.s, t |-> a.t, mv |-> mv])
    [] ev.op = "inv" -> LET a == E(ev.a) IN WithE(Bad(EncIs(T(a.t), T(a.s), ev.r)), [s |-> a.t, t |-> a.s, mv |-> EncInv(a.mv)])
    [] ev.op = "pow" -> LET a == E(ev.a) IN WithE(Bad(EncIs(T(a.s), T(a.s), ev.r)), [s |-> a.s, t |-> a.s, mv |-> EncPow(a.mv, ev.k)])
    [] ev.op = "conj" -> LET a == E(ev.a) b == E(ev.b) IN     \* a.conjugate_by(b) = b^-1 a b
         WithE(Bad(EncIs(T(b.s), T(b.s), ev.r)), [s |-> b.s, t |-> b.s, mv |-> b.mv \o a.mv \o EncInv(b.mv)])
    [] ev.op = "adopt" ->         \* an encoding known only through its package
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err) ELSE
         LET S == T(ev.t) IN IF ~ItemsOK(S, ev.r.pkg) THEN Bad("illegal moves") ELSE
         LET mv == Adopt(S, ev.r.pkg) U == EncTgt(S, mv) IN
         [Bad(EncIs(S, U, ev.r)) EXCEPT !.T = <<U>>, !.E = <<[s |-> ev.t, t |-> nT + 1, mv |-> mv]>>]
    [] ev.op = "same" ->          \* a new description (simplify, flip_mapping, combine_isometries, package, pickle) of the same map
         LET a == E(ev.a) S == T(a.s) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE LET v == EncIs(S, T(a.t), ev.r) IN
           IF v # "" THEN Bad(v)
           ELSE IF ev.kind = "flip_mapping" /\ \E i \in 1..Len(ev.r.pkg) : ev.r.pkg[i].op \notin {"f", "r", "id"} THEN Bad("not only flips and isometries")
           ELSE IF ev.kind = "combine_isometries" /\ \E i \in 1..(Len(ev.r.pkg) - 1) : ev.r.pkg[i].op \in {"r", "id"} THEN Bad("isometry not at the front")
           ELSE IF ~ItemsOK(S, ev.r.pkg) THEN Bad("illegal moves")
           ELSE LET mv == Adopt(S, ev.r.pkg) IN
             IF EncTgt(S, mv) # T(a.t) THEN Bad("moves do not reach the target")
             ELSE IF EncImages(S, mv) # EncImages(S, a.mv) THEN Bad("a different map")
             ELSE WithE(Ok, [s |-> a.s, t |-> a.t, mv |-> mv])
    [] ev.op = "slice" ->         \* a[i:j] as package; i, j already normalised to 0 <= i <= j <= len; pieces recompose
         LET a == E(ev.a) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE LET S == T(a.s) IN IF ~ItemsOK(S, ev.r.p3 \o ev.r.p2 \o ev.r.p1) THEN Bad("illegal moves") ELSE
              LET m3 == Adopt(S, ev.r.p3) T3 == EncTgt(S, m3)
                  m2 == Adopt(T3, ev.r.p2) T2 == EncTgt(T3, m2)
                  m1 == Adopt(T2, ev.r.p1) T1 == EncTgt(T2, m1)
              IN IF ObsT(ev.r.t3) # T3 \/ ObsT(ev.r.s2) # T3 \/ ObsT(ev.r.t2) # T2 \/ ObsT(ev.r.s1) # T2 \/ T1 # T(a.t) THEN Bad("pieces do not fit together")
                 ELSE IF EncImages(S, m3 \o m2 \o m1) # EncImages(S, a.mv) THEN Bad("pieces compose to a different map")
                 ELSE Cond(ev.r.eq, "recomposed pieces not equal to the map")
    [] ev.op = "appq" ->          \* the image of l with every weight divided by N, multiplied back by N
         LET a == E(ev.a) l == L(ev.l) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE Cond(ev.r.w = EncW(T(a.s), a.mv, l.w) /\ ObsT(ev.r.t) = T(a.t), "image of the scaled lamination")
    [] ev.op = "pil" ->           \* (d, L) with f(L) = d L; r.w: weights of L with total about 20000, rounded to even numbers; r.d: 100 d
         LET a == E(ev.a) S == T(a.s) r == ev.r
             w0 == TLCEval([i \in 1..S.z |-> -1])
             tot(w) == SumSeq(TLCEval([i \in 1..Len(w) |-> Pos(w[i])]))
             mv == Adopt(S, ev.pkg)               \* f as flips and relabellings
             g == Growth(S, mv, w0, <<tot(w0)>>) n == Len(g)
             exp == n >= 4 /\ g[n] > 20000 /\ \A i \in (n - 2)..n : 10 * g[i] >= 18 * g[i - 1] /\ g[i - 1] > 0
             x == EncW(S, mv, r.w) IN
         IF (\E i \in 1..Len(mv) : mv[i].op \notin {"f", "m", "r"}) \/ ~EncEq(S, a.mv, mv) THEN Bad("another map in terms of flips")
         ELSE IF IsErr(r) THEN (IF r.err = "Timeout" THEN Ok ELSE Cond(r.err = "ValueError" /\ ~exp, "raised " \o r.err))
         ELSE IF ~r.eq \/ ~r.gt \/ r.d <= 100 \/ Len(r.w) # S.z THEN Bad("not an eigenvector")
         ELSE IF \E i \in 1..S.z : r.w[i] < 0 THEN Bad("contains arcs")
         ELSE IF r.d > 100000 THEN Ok
         ELSE Cond(\A i \in 1..S.z : LET y == (r.d * r.w[i]) \div 100 IN 25 * Abs(x[i] - y) <= 5000 + tot(x), "not nearly an eigenvector")
    [] ev.op = "app" ->           \* apply to a lamination
         LET a == E(ev.a) l == L(ev.l) IN
         IF T(a.s) # T(l.t) THEN Cond(IsErr(ev.r) /\ ev.r.err = "ValueError", "applying a map to a lamination elsewhere")
         ELSE LET mv == IF "pw" \in DOMAIN ev THEN EncPow(a.mv, ev.pw) ELSE a.mv
                  w == EncW(T(a.s), mv, l.w) t == T(a.t) IN      \* the map preserves the kinds of components
              WithL(Bad(LamIs(t, w, Decompose(T(l.t), l.w), ev.r)), [t |-> a.t, w |-> w])
    [] ev.op = "word" ->         \* a word (characters cs) or a list of names in the generators ev.es with names ev.names
         LET S == T(ev.t)
             p == IF ev.how = "list" THEN [ok |-> TRUE, v |-> ev.ls] ELSE ParseWord(ev.names, ev.cs)
             one(x) == LET m == E(ev.es[x[1]]).mv IN IF x[2] = 1 THEN m ELSE EncInv(m) IN
         IF ~p.ok THEN Cond(IsErr(ev.r) /\ ev.r.err = "ValueError", "a word that cannot be decomposed was not refused")
         ELSE WithE(Bad(EncIs(S, S, ev.r)), [s |-> ev.t, t |-> ev.t, mv |-> FoldLeft(LAMBDA acc, x : one(x) \o acc, <<>>, p.v)])
    [] ev.op = "grp" ->          \* a group as a collection of its generators and their inverses; equality with other groups
         LET S == T(ev.t) r == ev.r names == {<<k, s>> : k \in 1..ev.n, s \in {1, -1}}
             one(x) == LET m == E(ev.es[x[1]]).mv IN IF x[2] = 1 THEN m ELSE EncInv(m)
             im == TLCEval([k \in 1..ev.n |-> EncImages(S, E(ev.es[k]).mv)])
             same(o) == \A k \in 1..ev.n : EncImages(S, E(o[k]).mv) = im[k] IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF ToSet(r.it) # names \/ Len(r.it) # 2 * ev.n \/ r.n # 2 * ev.n THEN Bad("names")
         ELSE IF \E i \in 1..Len(r.get) : LET g == r.get[i] IN EncIs(S, S, g) # "" \/ ~ItemsOK(S, g.pkg) \/ EncImages(S, Adopt(S, g.pkg)) # EncImages(S, one(g.k)) THEN Bad("class of a name")
         ELSE IF \E i \in 1..Len(ev.os) : r.eq[i] # same(ev.os[i]) THEN Bad("equality of groups")
         ELSE Cond(r.lam = TLCEval([i \in 1..S.z |-> 2]), "lamination")
    [] ev.op = "rword" ->        \* a random word
         LET allowed == IF ev.ls # <<>> THEN ToSet(ev.ls) ELSE {<<k, 1>> : k \in {j \in 1..ev.k : ev.pos}} \cup {<<k, -1>> : k \in {j \in 1..ev.k : ev.neg}} IN
         IF allowed = {} THEN Cond(IsErr(ev.r), "a word without letters")
         ELSE Cond(~IsErr(ev.r) /\ Len(ev.r.w) = ev.n /\ ToSet(ev.r.w) \subseteq allowed, "random word")
    [] ev.op = "moves" ->        \* equality of moves: identical ones are equal, equal ones do the same
         LET r == ev.r n == Len(r.ms) eq == ToSet(r.eq)
             key(i) == <<r.ms[i].s, r.ms[i].t, r.ms[i].i>>
             img(i) == LET S == ObsT(r.ms[i].s) IN EncImages(S, Adopt(S, <<r.ms[i].i>>)) IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF \E i, j \in 1..n : key(i) = key(j) /\ <<i, j>> \notin eq THEN Bad("identical moves differ")
         ELSE Cond(\A q \in eq : q[1] = q[2] \/ key(q[1]) = key(q[2]) \/
                (r.ms[q[1]].s = r.ms[q[2]].s /\ r.ms[q[1]].t = r.ms[q[2]].t /\ r.ms[q[1]].i.op = r.ms[q[2]].i.op /\ img(q[1]) = img(q[2])), "different moves are equal")
    [] ev.op = "crush" ->        \* the crush map of a multicurve: cuts along exactly its essential components
         LET l == L(ev.l) S == T(l.t) r == ev.r IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF ~ItemsOK(S, r.pkg) THEN Bad("illegal moves")
         ELSE LET mv == Adopt(S, r.pkg) U == EncTgt(S, mv)
                  D == SelectSeq(Decompose(S, l.w), LAMBDA m : ~IsPeripheral(S, m.x))
                  cuts == {i \in 1..Len(mv) : mv[i].op = "crush"}
                  before(i) == SubSeq(mv, 1, i - 1)
                  \* the curve cut along at step i, carried back to S
                  cut(i) == LET V == EncTgt(S, before(i)) IN EncW(V, EncInv(before(i)), CompWeights(V.z, [k |-> "c", w |-> CrushWord(V, mv[i].e)]))
                  surf == CrushedSurfaces(S, D)
                  got == SetToSeq(Components(U))
                  count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
              IN IF ObsT(r.s) # S \/ ObsT(r.t) # U THEN Bad("triangulations")
                 ELSE IF Cardinality(cuts) # Len(D) \/ {cut(i) : i \in cuts} # {CompWeights(S.z, D[i].x) : i \in 1..Len(D)} THEN Bad("not cut along the components")
                 ELSE IF Len(surf) # Len(got) \/ \E i \in 1..Len(surf) :
                          count(surf, LAMBDA x : x = surf[i]) # count(got, LAMBDA C : <<CompGenus(U, C), CompPunctures(U, C)>> = surf[i])
                      THEN Bad("crushed surface")
                 ELSE [Ok EXCEPT !.T = <<U>>, !.E = <<[s |-> l.t, t |-> nT + 1, mv |-> mv]>>]
    [] ev.op = "uncrush" -> LET a == E(ev.a) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE WithE(Cond(ObsT(ev.r.s) = T(a.t) /\ ObsT(ev.r.t) = T(a.s), "triangulations"), [s |-> a.t, t |-> a.s, mv |-> EncInv(a.mv)])
    [] ev.op = "recrush" ->      \* a crush or a lift rebuilt from its pickle or package
         LET a == E(ev.a) S == T(a.s) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE LET its == TLCEval([i \in 1..Len(ev.r.pkg) |-> IF ev.r.pkg[i].op = "lift" THEN [op |-> "lift", e |-> ev.r.pkg[i].e, u |-> ObsT(ev.r.pkg[i].t)] ELSE ev.r.pkg[i]]) IN
           IF ObsT(ev.r.s) # S \/ ObsT(ev.r.t) # T(a.t) THEN Bad("triangulations")
           ELSE IF ~ItemsOK(S, its) THEN Bad("illegal moves")
           ELSE LET mv == ItemMoves(S, its) IN
             IF EncTgt(S, mv) # T(a.t) THEN Bad("moves do not reach the target")
             ELSE Cond(BoundaryImages(S, mv) = BoundaryImages(S, a.mv), "a different map")
    [] ev.op = "creq" ->         \* equality of maps that crush or lift
         LET a == E(ev.a) b == E(ev.b)
             e == T(a.s) = T(b.s) /\ T(a.t) = T(b.t) /\ BoundaryImages(T(a.s), a.mv) = BoundaryImages(T(a.s), b.mv) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF ev.r.b # e THEN Bad("equality of maps")
         ELSE Cond(e => ev.r.h, "equal maps with different hashes")
    [] ev.op = "crapp" ->        \* apply a crush or a lift
         LET a == E(ev.a) l == L(ev.l) w == EncW(T(a.s), a.mv, l.w) U == T(a.t) IN
         IF Refused(T(a.s), a.mv, l.w) THEN Cond(IsErr(ev.r), "lifted a lamination that ends at the new punctures") ELSE
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err) ELSE
         WithL(Bad(LamIs(U, w, Decompose(U, w), ev.r)), [t |-> a.t, w |-> w])
    [] ev.op = "sepa" -> LET l == L(ev.l) S == T(l.t) D == SelectSeq(Decompose(S, l.w), LAMBDA m : ~IsPeripheral(S, m.x)) IN
         Cond(~IsErr(ev.r) /\ ev.r.b = Separating(S, D), "is_separating")
    [] ev.op = "union" ->        \* boundary_union and fills_with; ev.a is the crush of ev.l
         LET a == E(ev.a) l == L(ev.l) m == L(ev.m) S == T(l.t) U == T(a.t)
             C == Decompose(S, l.w) M == Decompose(S, m.w)
             meets(i) == \E j \in 1..Len(M) : CrossCount(S, C[i].x, M[j].x) > 0
             all == \A i \in 1..Len(C) : meets(i)
             x == EncW(S, a.mv, m.w) X == Decompose(U, x)
             apart == SelectSeq(TLCEval([i \in 1..Len(C) |-> [x |-> C[i].x, n |-> IF meets(i) THEN 0 ELSE 2 * C[i].n]]), LAMBDA y : y.n > 0)
             b == AddW(EncW(U, EncInv(a.mv), BoundaryW(U, X)), MultiWeights(S.z, apart))
         IN IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
            ELSE IF LamIs(S, b, Decompose(S, b), ev.r.u) # "" THEN Bad("boundary of the union: " \o LamIs(S, b, Decompose(S, b), ev.r.u))
            ELSE Cond(ev.r.f = (all /\ Filling(U, X)), "fills_with")
    [] ev.op = "enceq" ->
         LET a == E(ev.a) b == E(ev.b)
             e == T(a.s) = T(b.s) /\ T(a.t) = T(b.t) /\ EncImages(T(a.s), a.mv) = EncImages(T(a.s), b.mv) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF ev.r.b # e THEN Bad("equality of maps")
         ELSE IF ev.r.ne = e THEN Bad("inequality of maps")
         ELSE Cond(e => ev.r.h, "equal maps with different hashes")
    [] ev.op = "isid" -> LET a == E(ev.a) IN
         Cond(~IsErr(ev.r) /\ ev.r.b = IsIdentityEnc(T(a.s), a.mv), "is_identity")
    [] ev.op = "vmap" ->
         LET a == E(ev.a) S == T(a.s) U == T(a.t) im == EncImages(S, a.mv) vu == VRep(U)
             tail(l) == IF l >= 0 THEN vu[AsPath(U, im[l + 1]).c] ELSE vu[AsPath(U, im[-l]).d] IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF Cardinality({ToSet(ev.r.m[i][1]) : i \in 1..Len(ev.r.m)}) # Cardinality(VertexReps(S)) THEN Bad("vertex map domain")
         ELSE Cond(\A i \in 1..Len(ev.r.m) : \A j \in 1..Len(ev.r.m[i][1]) :
                     vu[ev.r.m[i][2][1]] = tail(ev.r.m[i][1][j]) /\ ToSet(ev.r.m[i][2]) = VertexSet(U, ev.r.m[i][2][1]), "vertex map")
    [] ev.op = "imat" ->          \* intersection matrix: rows are the coordinates of the images of the edges
         LET a == E(ev.a) S == T(a.s) im == EncImages(S, a.mv) IN
         Cond(~IsErr(ev.r) /\ ev.r.m = TLCEval([i \in 1..S.z |-> CompWeights(S.z, im[i])]), "intersection matrix")
    [] ev.op = "short" ->         \* shorten: the conjugator's own meaning maps l to s, and s is short of the right class
         LET l == L(ev.l) S == T(l.t) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF ~ItemsOK(S, ev.r.pkg) THEN Bad("illegal moves")
         ELSE LET mv == Adopt(S, ev.r.pkg) U == EncTgt(S, mv) w == EncW(S, mv, l.w) D == Decompose(U, w) v == LamIs(U, w, D, ev.r.s) IN
           IF v # "" THEN Bad("short lamination: " \o v)
           ELSE IF \E i \in 1..Len(D) : ~ShortComp(U, D[i].x) THEN Bad("not short")
           ELSE IF ~ev.r.b THEN Bad("is_short denied")
           ELSE [Ok EXCEPT !.T = <<U>>, !.L = <<[t |-> nT + 1, w |-> w]>>, !.E = <<[s |-> l.t, t |-> nT + 1, mv |-> mv]>>]
    [] ev.op = "isshort" -> LET l == L(ev.l) S == T(l.t) D == Decompose(S, l.w) IN
         Cond(~IsErr(ev.r) /\ ev.r.b = (\A i \in 1..Len(D) : ShortComp(S, D[i].x)), "is_short")
    [] ev.op = "order" ->         \* order, periodicity, identity
         LET a == E(ev.a) n == OrderOf(T(a.s), a.mv) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF ev.r.n # n THEN Bad("order")
         ELSE Cond(ev.r.per = (n > 0) /\ ev.r.id = (n = 1), "periodicity")
    [] ev.op = "vperm" ->         \* permutation of the punctures, numbered in sorted order
         LET a == E(ev.a) S == T(a.s) reps == SetToSortSeq(VertexReps(S), <) im == VertexImages(S, a.mv, reps) IN
         Cond(~IsErr(ev.r) /\ ev.r.p = TLCEval([i \in 1..Len(reps) |-> (CHOOSE j \in 1..Len(reps) : reps[j] = im[i]) - 1]), "permutation of the punctures")
    [] ev.op = "orbi" ->          \* the cyclic group of a periodic class: invariant polygonalisation and quotient
         LET a == E(ev.a) S == T(a.s) r == ev.r IN
         IF IsErr(r) THEN Cond(r.err = "ValueError" /\ OrderOf(S, a.mv) = 0, "raised " \o r.err)
         ELSE IF ~GoodPoly(S, r.pw) \/ ~Invariant(S, a.mv, r.pw) THEN Bad("not an invariant polygonalisation")
         ELSE LET sk == Skeleton(S, r.pw) f == DartAction(S, sk, a.mv) n == PermOrder(f) IN
           IF r.n # n THEN Bad("order of the group")
           ELSE Cond(SigOf(r.sig, n) = OrbiSignature(S, sk, CyclicNames(f, n)), "orbifold signature")
    [] ev.op = "nt" ->            \* the Nielsen--Thurston type of a periodic class (of a class of infinite order only that it is one)
         LET a == E(ev.a) S == T(a.s) r == ev.r IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF r.per # (OrderOf(S, a.mv) # 0) THEN Bad("periodic")
         ELSE IF ~r.per THEN Ok
         ELSE IF ~GoodPoly(S, r.pw) \/ ~Invariant(S, a.mv, r.pw) THEN Bad("not an invariant polygonalisation")
         ELSE LET sk == Skeleton(S, r.pw) f == DartAction(S, sk, a.mv) n == PermOrder(f)
                  red == \E b \in OrbiSignature(S, sk, CyclicNames(f, n)) : ~TriangleOrbifold(b[1], n) IN
              IF r.red # red THEN Bad("reducible")
              ELSE Cond(~r.pa /\ r.ty = "Periodic", "type")
    [] ev.op = "fsub" ->          \* a finite group from generators: names are words in the generators (the right letter first)
         LET gm == TLCEval([i \in 1..Len(ev.es) |-> E(ev.es[i]).mv]) S == T(E(ev.es[1]).s) r == ev.r IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF ~GoodPoly(S, r.pw) \/ (\E i \in 1..Len(gm) : ~Invariant(S, gm[i], r.pw)) THEN Bad("not an invariant polygonalisation")
         ELSE LET sk == Skeleton(S, r.pw)
                  fs == TLCEval([i \in 1..Len(gm) |-> DartAction(S, sk, gm[i])])
                  word(w) == FoldLeft(LAMBDA acc, i : ComposeF(acc, fs[i]), IdF(fs[1]), w)
                  H == TLCEval([k \in 1..Len(r.ws) |-> word(r.ws[k])])
              IN IF Range(H) # Generated(Range(fs)) THEN Bad("not the group generated")
                 ELSE IF Cardinality(Range(H)) # Len(H) THEN Bad("an element listed twice")
                 ELSE IF ~r.conj THEN Bad("not conjugate to a conjugate")
                 \* the rotations at the preimages of a cone point are conjugate to each other
                 ELSE Cond((\A f, g \in Range(fs) : ComposeF(f, g) = ComposeF(g, f)) => SigOf(r.sig, Len(H)) = OrbiSignature(S, sk, H), "orbifold signature")
    [] ev.op = "pconj" ->         \* conjugacy of classes at least one of which is periodic; pa, pb invariant polygonalisations
         LET a == E(ev.a) b == E(ev.b) S == T(a.s) U == T(b.s) r == ev.r
             per(w) == w # <<>> IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF (r.pa # <<>> /\ (~GoodPoly(S, r.pa) \/ ~Invariant(S, a.mv, r.pa))) \/ (r.pb # <<>> /\ (~GoodPoly(U, r.pb) \/ ~Invariant(U, b.mv, r.pb)))
              THEN Bad("not an invariant polygonalisation")
         ELSE IF r.pa = <<>> /\ r.pb = <<>> THEN Ok
         ELSE IF r.pa = <<>> \/ r.pb = <<>> THEN Cond(r.b = FALSE, "conjugate to a class of another type")
         ELSE LET sa == Skeleton(S, r.pa) fa == DartAction(S, sa, a.mv) sb == Skeleton(U, r.pb) fb == DartAction(U, sb, b.mv)
                  n == PermOrder(fa)
                  c == n = PermOrder(fb) /\ OrbiSignature(S, sa, CyclicNames(fa, n)) = OrbiSignature(U, sb, CyclicNames(fb, n))
              IN Cond(r.b = c, IF c THEN "conjugate classes not recognised" ELSE "not conjugate")
    [] ev.op = "xtw" ->           \* the multicurve of a multitwist; ev.l to the power ev.k is a presentation when ev.k # 0
         LET a == E(ev.a) S == T(a.s) r == ev.r im == EncImages(S, a.mv)
             twist(w, k) == EncImages(S, <<[op |-> "t", w |-> w, k |-> k]>>)
             D == SelectSeq(Decompose(S, L(ev.l).w), LAMBDA m : ~IsPeripheral(S, m.x))
             w0 == MultiWeights(S.z, TLCEval([i \in 1..Len(D) |-> [x |-> D[i].x, n |-> ev.k * D[i].n]])) IN
         IF ev.k # 0 /\ twist(L(ev.l).w, ev.k) # im THEN Bad("harness: not a presentation")
         ELSE IF IsErr(r) THEN Cond(r.err = "ValueError" /\ (ev.k <= 0 \/ D = <<>>), "multitwist not recognised: " \o r.err)
         ELSE IF ev.k < 0 /\ D # <<>> THEN Bad("a left twist reported as a right one")
         ELSE IF ~ValidWeights(S, r.w) THEN Bad("invalid coordinates")
         ELSE IF \E m \in ToSet(Decompose(S, r.w)) : m.x.k # "c" \/ IsPeripheral(S, m.x) THEN Bad("not an essential multicurve")
         ELSE IF twist(r.w, 1) # im THEN Bad("twist about the multicurve is another map")
         ELSE Cond((ev.k > 0 => r.w = w0) /\ r.m, "weights of the multicurve")
    [] ev.op = "pl" ->            \* linear piece at the multicurve l, evaluated on multicurves ms (the first is l)
         LET a == E(ev.a) S == T(a.s) r == ev.r IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF ~r.x[1].b THEN Bad("multicurve outside its own cell")
         ELSE Cond(\A i \in 1..Len(ev.ms) : IF r.x[i].b THEN r.x[i].w = EncW(S, a.mv, L(ev.ms[i]).w) ELSE r.x[i].err = "ValueError", "value of the linear piece")
    [] OTHER -> Bad("unknown event")

RunHom(ev, T(_), E(_), H(_)) ==
  CASE ev.op = "hom" -> [Cond(~IsErr(ev.r) /\ ev.r.v = ev.v, "coefficients") EXCEPT !.H = <<[t |-> ev.t, v |-> ev.v]>>]
    [] ev.op = "edgehom" -> LET z == T(ev.t).z v == AddTo(ZeroC(z), ev.e, 1) IN
         [Cond(~IsErr(ev.r) /\ Homologous(T(ev.t), ev.r.v, v), "edge class") EXCEPT !.H = <<[t |-> ev.t, v |-> v]>>]
    [] ev.op = "homlin" ->       \* a + b, a - b, -a ...: linear combination
         LET a == H(ev.hs[1]) v == LinComb(T(a.t).z, ev.ks, TLCEval([i \in 1..Len(ev.hs) |-> H(ev.hs[i]).v])) IN
         [Cond(~IsErr(ev.r) /\ Homologous(T(a.t), ev.r.v, v), "sum of classes") EXCEPT !.H = <<[t |-> a.t, v |-> v]>>]
    [] ev.op = "homeq" ->
         LET a == H(ev.a) b == H(ev.b) st == T(a.t) = T(b.t) e == st /\ Homologous(T(a.t), a.v, b.v) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF ev.r.b # e THEN Bad("equality of classes")
         ELSE IF e /\ ~ev.r.h THEN Bad("equal classes with different hashes")
         ELSE Cond((st => (ev.r.ca = ev.r.cb) = e) /\ Homologous(T(a.t), ev.r.ca, a.v) /\ Homologous(T(b.t), ev.r.cb, b.v), "canonical form")
    [] ev.op = "hombasis" ->
         LET t == T(ev.t) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF Len(ev.r.bs) # HomRank(t) THEN Bad("size of the basis")
         \* every edge class is the given combination of the basis (so the basis spans; its size is the rank)
         ELSE Cond(\A i \in 1..t.z : Homologous(t, AddTo(ZeroC(t.z), i - 1, 1), LinComb(t.z, ev.r.cs[i], ev.r.bs)), "basis does not span")
    [] ev.op = "apph" ->
         LET a == E(ev.a) h == H(ev.h) S == T(a.s) U == T(a.t) v == ChainImage(EdgeChains(S, a.mv), h.v) IN
         [Cond(~IsErr(ev.r) /\ ObsT(ev.r.t) = U /\ Homologous(U, ev.r.v, v), "action on homology") EXCEPT !.H = <<[t |-> a.t, v |-> v]>>]
    [] ev.op = "hmat" ->
         LET a == E(ev.a) S == T(a.s) U == T(a.t) cols == EdgeChains(S, a.mv) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE Cond(\A j \in 1..Len(ev.r.sb) :
                     Homologous(U, ChainImage(cols, ev.r.sb[j]), LinComb(U.z, TLCEval([i \in 1..Len(ev.r.tb) |-> ev.r.m[i][j]]), ev.r.tb)), "homology matrix")
    [] ev.op = "torelli" ->
         LET a == E(ev.a) S == T(a.s) cols == EdgeChains(S, a.mv) IN
         Cond(~IsErr(ev.r) /\ ev.r.b = (\A i \in 1..S.z : Homologous(S, cols[i], AddTo(ZeroC(S.z), i - 1, 1))), "is_in_torelli")
    [] OTHER -> Bad("unknown event")

RunAlg(ev, S(_)) ==
  CASE ev.op = "perm" ->         \* two permutations a, b of the same size, a power k
         LET a == ev.a b == ev.b n == Len(a) IN
         IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
         ELSE IF ev.r.inv # PInv(a) \/ ev.r.inv2 # PInv(a) THEN Bad("inverse")
         ELSE IF ev.r.mul # PMul(a, b) THEN Bad("product")
         ELSE IF ev.r.pow # PPow(a, ev.k) THEN Bad("power")
         ELSE IF ev.r.order # POrder(a) THEN Bad("order")
         ELSE IF ev.r.index # PIndex(a) \/ ev.r.from # a THEN Bad("rank")
         ELSE IF ev.r.matrix # PMatrix(a) THEN Bad("matrix")
         ELSE IF ev.r.even # PEven(a) THEN Bad("parity")
         ELSE IF ev.r.cyc # PCycleLengths(a) THEN Bad("cycle type")
         ELSE IF ev.r.conj # PConj(a, b) THEN Bad("conjugacy")
         ELSE IF ev.r.eq # (a = b) \/ (a = b /\ ~ev.r.h) THEN Bad("equality")
         ELSE Cond(ev.r.dict = a, "from_dict")
    [] ev.op = "permx" ->        \* different sizes, or not a permutation
         Cond(~IsErr(ev.r) /\ ev.r.mul = "ValueError" /\ ev.r.eq = "ValueError" /\ ~ev.r.conj, "permutations of different sizes")
    [] ev.op = "util" -> Cond(UtilOK(ev, ev.r), "value of " \o ev.f)
    [] ev.op = "uf" ->
         LET states == FoldLeft(LAMBDA acc, o : Append(acc, Merge(Last(acc), ToSet(o))), <<Discrete(ev.n)>>, ev.os)
             good(P, r) == /\ r.n = Cardinality(P)
                           /\ {ToSet(r.g[i]) : i \in 1..Len(r.g)} = P /\ Len(r.g) = Cardinality(P)
                           /\ \A i \in 1..Len(r.g) : Len(r.g[i]) = Cardinality(ToSet(r.g[i]))
                           /\ \A x, y \in 0..(ev.n - 1) : (r.r[x + 1] = r.r[y + 1]) = (\E c \in P : x \in c /\ y \in c)
                           /\ \A x \in 0..(ev.n - 1) : \E c \in P : {x, r.r[x + 1]} \subseteq c
         IN Cond(~IsErr(ev.r) /\ \A i \in 1..Len(states) : good(states[i], ev.r.st[i]), "partition")
    [] ev.op = "slp" ->
         LET x == CASE ev.how = "wrap" -> [k |-> "w", v |-> ev.v]
                    [] ev.how = "graph" -> SGraph(ev.g, 0)
                    [] ev.how = "copy" -> S(ev.as[1])
                    [] ev.how = "cat" -> [k |-> "cat", a |-> TLCEval([i \in 1..Len(ev.as) |-> S(ev.as[i])])]
                    [] ev.how = "mul" -> [k |-> "mul", n |-> ev.n, a |-> S(ev.as[1])]
                    [] ev.how = "rev" -> [k |-> "rev", a |-> S(ev.as[1])]
                    [] ev.how = "add" -> [k |-> "add", c |-> ev.n, a |-> S(ev.as[1])]
             n == SLen(x) r == ev.r
             at(i) == SAt(x, IF i < 0 THEN n + i ELSE i)
         IN IF IsErr(r) THEN Bad("raised " \o r.err)
            ELSE IF r.n # n THEN Bad("length")
            ELSE IF r.small /\ (r.l # TLCEval([i \in 1..n |-> SAt(x, i - 1)]) \/ r.rv # TLCEval([i \in 1..n |-> SAt(x, n - i)])) THEN Bad("iteration")
            ELSE IF \E i \in 1..Len(r.at) : r.at[i][2] # at(r.at[i][1]) THEN Bad("indexing")
            ELSE IF \E i \in 1..Len(r.oob) : r.oob[i] # "IndexError" THEN Bad("indexing out of range")
            ELSE IF \E i \in 1..Len(r.has) : r.has[i][2] # SHas(x, r.has[i][1]) THEN Bad("membership")
            ELSE [Ok EXCEPT !.S = <<x>>]
    [] OTHER -> Bad("unknown event")

RunEnum(ev, T(_), L(_), E(_)) ==
  CASE ev.op = "disj" ->        \* arcs, multiarcs and triangulations disjoint from the filling multiarc ev.l, which the map ev.a makes short
         LET l == L(ev.l) a == E(ev.a) S == T(l.t) U == T(a.t) r == ev.r
             fixed == {CompWeights(U.z, d.x) : d \in ToSet(Decompose(U, EncW(S, a.mv, l.w)))} IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE LET N == FlipBall(U, fixed, 60)
                  back == EncInv(a.mv)
                  img == TLCEval([w \in UNION {Range(N[i].ws) : i \in 1..Len(N)} |-> EncW(U, back, w)])
                  tris == {{img[w] : w \in Range(N[i].ws)} : i \in 1..Len(N)}
                  sums(X) == {SumW(S.z, x) : x \in X}
                  lists(xs, X) == ToSet(xs) = X /\ Cardinality(X) = Len(xs)
              IN IF ~lists(r.arcs, Range(img)) THEN Bad("disjoint arcs")
                 ELSE IF \E c \in ToSet(r.c) : c # "Arc" THEN Bad("disjoint arcs: class")
                 ELSE IF ~lists(r.tris, sums(tris)) THEN Bad("disjoint triangulations")
                 ELSE Cond(r.multi = <<>> \/ lists(r.multi, sums(UNION {SUBSET x : x \in tris} \ {{}})), "disjoint multiarcs")
    [] ev.op = "ball" ->        \* the triangulations near the one (the lamination ev.l, which ev.a makes short) that a multiarc ev.m extends to
         LET l == L(ev.l) a == E(ev.a) S == T(l.t) U == T(a.t) r == ev.r m == Decompose(S, L(ev.m).w) X == Decompose(S, l.w) IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF ~IsTriangulationD(S, X) \/ ~({m[i].x : i \in 1..Len(m)} \subseteq {X[i].x : i \in 1..Len(X)}) THEN Bad("not an extension to a triangulation")
         ELSE LET N == FlipBall(U, {}, ev.n) back == EncInv(a.mv)
                  X2 == {SumW(S.z, {EncW(U, back, w) : w \in Range(N[i].ws)}) : i \in 1..Len(N)}
              IN Cond(ToSet(r.ws) = X2 /\ Len(r.ws) = Cardinality(X2), "ball of triangulations")
    [] ev.op = "allenc" ->      \* all maps made from at most ev.n flips
         LET S == T(ev.t) r == ev.r
             ext(mv) == LET U == EncTgt(S, mv) IN {Append(mv, [op |-> "f", e |-> i]) : i \in {j \in 0..(S.z - 1) : Flippable(U, j)}}
             upto[k \in 0..ev.n] == IF k = 0 THEN {<<>>} ELSE upto[k - 1] \cup UNION {ext(mv) : mv \in upto[k - 1]}
             val(mv) == <<EncTgt(S, mv), EncImages(S, mv)>> IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF \E i \in 1..Len(r.es) : ObsT(r.es[i].s) # S \/ ~ItemsOK(S, r.es[i].pkg) \/ r.es[i].c # (IF r.es[i].t = r.es[i].s THEN "MappingClass" ELSE "Mapping") THEN Bad("not maps from here")
         ELSE LET got == TLCEval([i \in 1..Len(r.es) |-> val(Adopt(S, r.es[i].pkg))]) IN
              IF \E i \in 1..Len(r.es) : got[i][1] # ObsT(r.es[i].t) THEN Bad("target triangulation")
              ELSE Cond(Range(got) = {val(mv) : mv \in upto[ev.n]}, "maps made from few flips")
    [] ev.op = "cayley" ->      \* names of the elements within distance ev.n of the identity, generators ev.gs = <<register, sign>>
         LET S == T(ev.t) r == ev.r
             gm(g) == IF g[2] = 1 THEN E(g[1]).mv ELSE EncInv(E(g[1]).mv)
             gs == TLCEval([i \in 1..Len(ev.gs) |-> gm(ev.gs[i])])
             val(w) == FoldLeft(LAMBDA acc, i : EncComps(S, gs[w[Len(w) + 1 - i]], acc), EdgeArcs(S.z), TLCEval([i \in 1..Len(w) |-> i])) IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE LET got == TLCEval([i \in 1..Len(r.ws) |-> val(r.ws[i])]) IN
              IF \E i \in 1..Len(r.ws) : Len(r.ws[i]) > ev.n THEN Bad("a name that is too long")
              ELSE IF Cardinality(Range(got)) # Len(got) THEN Bad("an element with two names")
              ELSE Cond(Range(got) = CayleyBall(S, gs, ev.n, {EdgeArcs(S.z)}, {EdgeArcs(S.z)}), "elements of the ball")
    [] ev.op = "vcyc" -> LET l == L(ev.l) S == T(l.t) r == ev.r IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF \E x \in ToSet(r.vs) \cup {r.one} : x.c # "Curve" \/ ObsT(x.t) # S \/ ~MayCycle(S, l.w, x.w) THEN Bad("not a vertex cycle")
         ELSE Cond(MustCycles(S, l.w) \subseteq {x.w : x \in ToSet(r.vs)}, "vertex cycles missing")
    [] ev.op = "quasi" -> LET l == L(ev.l) m == L(ev.m) S == T(l.t) r == ev.r IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF \E x \in ToSet(r.vs) : x.c # "Curve" \/ ObsT(x.t) # S \/ ~ValidWeights(S, x.w) \/ ~IsSingleCurve(S, x.w) THEN Bad("not curves")
         ELSE Cond({l.w, m.w} \subseteq {x.w : x \in ToSet(r.vs)}, "does not contain the given curves")
    [] ev.op = "tight" ->       \* tight paths of length at most two; longer ones only when the ends do not fill; ev.a is the crush of ev.l
         LET l == L(ev.l) m == L(ev.m) S == T(l.t) r == ev.r C == Decompose(S, l.w) M == Decompose(S, m.w)
             apart == Inter(S, C, M) = 0 /\ ~SharesComponent(C, M)
             u == UnionW(S, E(ev.a).mv, T(E(ev.a).t), C, M) D == Decompose(S, u)
             want == CASE ev.n = 0 -> IF l.w = m.w THEN {<<l.w>>} ELSE {}
                       [] ev.n = 1 -> IF apart THEN {<<l.w, m.w>>} ELSE {}
                       [] ev.n = 2 -> IF ~AllPeripheral(S, D) /\ ~SharesComponent(C, D) /\ ~SharesComponent(M, D) THEN {<<l.w, u, m.w>>} ELSE {}
                       [] OTHER -> {} IN
         IF IsErr(r) THEN Bad("raised " \o r.err) ELSE Cond(ToSet(r.ps) = want, "tight paths")
    [] ev.op = "pach" ->        \* subdivide the triangles ev.ls and send the multicurves ev.ms there and back
         LET S == T(ev.t) r == ev.r ts == {TriOf(S, x) : x \in ToSet(ev.ls)} U == ObsT(r.t) IN
         IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE IF U.z = 0 \/ ~IsTri(U) \/ ~Subdivided(S, U, ts) THEN Bad("not the subdivided triangulation")
         ELSE IF \E i \in 1..Len(ev.ms) : LET w == SubdividedWeights(S, U, ts, L(ev.ms[i]).w) IN LamIs(U, w, Decompose(U, w), r.xs[i]) # "" THEN Bad("multicurve on the subdivided triangulation")
         ELSE Cond(\A i \in 1..Len(ev.ms) : LamIs(S, L(ev.ms[i]).w, Decompose(S, L(ev.ms[i]).w), r.ys[i]) = "", "multicurve sent back")
    [] ev.op = "load" ->        \* example groups: g, n, or a name
         LET r == ev.r ok == ev.n >= 1 /\ ev.g >= 0 /\ 6 * ev.g + 3 * ev.n >= 9 IN
         IF ~ok THEN Cond(IsErr(r) /\ r.err = "ValueError", "not refused")
         ELSE IF IsErr(r) THEN Bad("raised " \o r.err)
         ELSE LET S == ObsT(r.t)
                  dec(x) == Decompose(S, x.w)
                  nm(x) == <<x.name, x.i>>
                  cs == r.cs as == r.as
                  good(x, k) == LET D == dec(x) IN ValidWeights(S, x.w) /\ Len(D) = 1 /\ D[1].n = 1 /\ (IF k = "c" THEN D[1].x.k = "c" /\ ~IsPeripheral(S, D[1].x) ELSE DistinctEnds(S, D))
                  dc == TLCEval([i \in 1..Len(cs) |-> dec(cs[i])[1].x]) da == TLCEval([i \in 1..Len(as) |-> dec(as[i])[1].x])
                  all == cs \o as dd == dc \o da
                  ends(i) == {EndVertices(S, da[i])[1], EndVertices(S, da[i])[2]}
                  at(k) == CHOOSE i \in 1..Len(as) : as[i].i = k
              IN IF S.z = 0 \/ Cardinality(Components(S)) # 1 \/ CompGenus(S, Labels(S.z)) # ev.g \/ CompPunctures(S, Labels(S.z)) # ev.n THEN Bad("another surface")
                 ELSE IF (\E i \in 1..Len(cs) : ~good(cs[i], "c")) \/ (\E i \in 1..Len(as) : ~good(as[i], "a")) THEN Bad("not essential curves and arcs with distinct ends")
                 ELSE IF Cardinality(Range(dd)) # Len(dd) THEN Bad("a generator given twice")
                 ELSE IF ev.g > 0 /\ OddRank({OddEdges(S, dc[i]) : i \in 1..Len(dc)}) # 2 * ev.g + (IF ev.pure THEN ev.n - 1 ELSE 0) THEN Bad("the twists do not act on all of the homology")
                 ELSE IF ~ev.std THEN Ok
                 ELSE IF {nm(cs[i]) : i \in 1..Len(cs)} # StdCurves(ev.g, ev.n) \/ {nm(as[i]) : i \in 1..Len(as)} # StdArcs(ev.g, ev.n) THEN Bad("names of the generators")
                 ELSE IF \E i, j \in 1..Len(dd) : i < j /\ CrossCount(S, dd[i], dd[j]) # StdMeet(ev.g, ev.n, nm(all[i]), nm(all[j])) THEN Bad("intersections of the generators")
                 ELSE Cond(Len(as) = 0 \/ (UNION {ends(i) : i \in 1..Len(as)} = VertexReps(S) /\ \A k \in 0..(ev.n - 1) : ends(at(k)) \cap ends(at((k + 1) % ev.n)) # {}), "arcs do not go around the punctures")
    [] OTHER -> Bad("unknown event")

EnumOps == {"disj", "ball", "allenc", "cayley", "vcyc", "quasi", "tight", "pach", "load"}
AlgOps == {"util", "perm", "permx", "uf", "slp"}
TriOps == {"tri", "badtri", "trisig", "triobs", "trieq", "tree", "iso", "fiso"}
LamOps == {"lam", "pick", "comp", "int", "part", "isper", "nocommon", "dual", "weight", "lameq", "sum", "sub", "bnd", "fill", "istri", "ends", "edgecurve", "toptype", "slope", "reltw", "trace", "real"}
EncOps == {"enc", "tw", "ht", "mul", "inv", "pow", "conj", "word", "adopt", "same", "slice", "app", "enceq", "isid", "vmap", "imat", "short", "isshort", "crush", "uncrush", "crapp", "recrush", "creq", "sepa", "union", "order", "vperm", "orbi", "fsub", "pconj", "xtw", "pl", "appq", "pil", "nt", "grp", "rword", "moves"}
HomOps == {"hom", "edgehom", "homlin", "homeq", "hombasis", "apph", "hmat", "torelli"}

(* Repeated questions.  The history of the session is the only memory the specification allows: an answer given once *)
(* about an object holds for every equal object from then on, and asking never changes the object.                   *)
RunAsk(ev, T(_), L(_), E(_), H(_)) ==
  LET same(i, j) == i = j \/
        CASE ev.k = "L" -> L(i).w = L(j).w /\ T(L(i).t) = T(L(j).t)
          [] ev.k = "T" -> T(i) = T(j)
          [] ev.k = "H" -> T(H(i).t) = T(H(j).t) /\ Homologous(T(H(i).t), H(i).v, H(j).v)
          [] ev.k = "E" -> LET a == E(i) b == E(j) IN T(a.s) = T(b.s) /\ T(a.t) = T(b.t) /\ EncImages(T(a.s), a.mv) = EncImages(T(a.s), b.mv)
      clash(x, y) == x.f = y.f /\ x.v # y.v
      prior == {j \in 1..(pc - 1) : Log[sid].ev[j].op = "q" /\ Log[sid].ev[j].k = ev.k /\
                 \E x \in ToSet(ev.a), y \in ToSet(Log[sid].ev[j].a) : clash(x, y)}
      bad == {x \in ToSet(ev.a) : \E j \in prior : LET o == Log[sid].ev[j] IN
                 \E y \in ToSet(o.a) : clash(x, y) /\ (IF x.own THEN ev.i = o.i ELSE same(ev.i, o.i))} IN
  IF IsErr(ev.r) THEN Bad("raised " \o ev.r.err)
  ELSE IF bad # {} THEN Bad("another answer to " \o (CHOOSE x \in bad : TRUE).f)
  ELSE CASE ev.k = "L" -> Cond(ev.r.w = L(ev.i).w /\ ObsT(ev.r.t) = T(L(ev.i).t), "a lamination changed")
         [] ev.k = "H" -> Cond(ObsT(ev.r.t) = T(H(ev.i).t) /\ Homologous(T(H(ev.i).t), ev.r.w, H(ev.i).v), "a homology class changed")
         [] ev.k = "T" -> Cond(ObsT(ev.r.t) = T(ev.i), "a triangulation changed")
         [] ev.k = "E" -> Cond(ObsT(ev.r.s) = T(E(ev.i).s) /\ ObsT(ev.r.t) = T(E(ev.i).t), "a map changed")

Run(ev, e) ==
  LET T(i) == e.T[i] L(i) == e.L[i] E(i) == e.E[i] H(i) == e.H[i] S(i) == e.S[i] IN
  IF ev.op \in TriOps THEN RunTri(ev, T, E)
  ELSE IF ev.op \in LamOps THEN RunLam(ev, T, L)
  ELSE IF ev.op \in EncOps THEN RunEnc(ev, T, L, E, Len(e.T))
  ELSE IF ev.op \in HomOps THEN RunHom(ev, T, E, H)
  ELSE IF ev.op \in EnumOps THEN RunEnum(ev, T, L, E)
  ELSE IF ev.op = "q" THEN RunAsk(ev, T, L, E, H)
  ELSE IF ev.op \in AlgOps THEN RunAlg(ev, S)
  ELSE Bad("unknown event " \o ev.op)

------------------------------------------------------------------------------
Init == /\ sid \in 1..Len(Log)
        /\ pc = 1 /\ env = Empty /\ verdict = ""
Events == Log[sid].ev
Step ==
  /\ pc <= Len(Events) /\ verdict = ""
  /\ LET r == Run(Events[pc], env) IN
     /\ env' = [T |-> env.T \o r.T, L |-> env.L \o r.L, E |-> env.E \o r.E, H |-> env.H \o r.H, S |-> env.S \o r.S]
     /\ verdict' = r.v
     /\ pc' = pc + 1
     /\ r.v # "" => PrintT("FAIL " \o ToString(Log[sid].id) \o " " \o ToString(pc) \o " " \o Events[pc].op \o ": " \o r.v)
     /\ r.v = "" /\ pc = Len(Events) => PrintT("DONE " \o ToString(Log[sid].id))
  /\ UNCHANGED sid
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
