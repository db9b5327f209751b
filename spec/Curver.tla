------------------------------- MODULE Curver -------------------------------
(***************************************************************************)
(* The state machine of a marked surface: a triangulation together with two *)
(* arcs or curves on it, changed by the moves that curver composes its maps *)
(* from.  It is explored exhaustively from the triangulation and within the *)
(* weight bound of a configuration; the invariants are the facts that make  *)
(* the word-level semantics a semantics of curves on a surface, and every   *)
(* transition is printed so that the harness can replay it into the code.   *)
(***************************************************************************)
EXTENDS CvHom, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.CVMC)      \* [ts, seed, seed2, bound, depth, ops, pows, emit]
T0 == MkTri(Cfg.ts)
Ops == ToSet(Cfg.ops)
Pows == ToSet(Cfg.pows)

VARIABLES T,      \* the triangulation
          x, y,   \* two components, in normal form
          i0      \* their intersection number at the start
vars == <<T, x, y, i0>>

Comps(S, B) ==      \* every arc and curve whose coordinates are at most B
  LET ws == {w \in [1..S.z -> (-1)..B] : (\E i \in 1..S.z : w[i] # 0) /\ ValidWeights(S, w)}
      ds == {Decompose(S, w) : w \in ws}
  IN {d[1].x : d \in {e \in ds : Len(e) = 1 /\ e[1].n = 1}}

ICount(S, u, v) == Inter(S, <<[x |-> u, n |-> 1]>>, <<[x |-> v, n |-> 1]>>)
Heavy(S, u) == Max(Range(CompWeights(S.z, u))) > Cfg.bound

XS == TLCEval(Comps(T0, Cfg.seed))
YS == TLCEval(Comps(T0, Cfg.seed2))

Init == /\ T = T0
        /\ x \in XS
        /\ y \in YS
        /\ i0 = ICount(T0, x, y)

Essential(S, u) == u.k = "c" /\ ~IsPeripheral(S, u)
Spread(S, u) == IsArcKind(u) /\ EndVertices(S, u)[1] # EndVertices(S, u)[2]

Moves(S) ==
  (IF "f" \in Ops THEN {[op |-> "f", e |-> l] : l \in {k \in Labels(S.z) : Flippable(S, k)}} ELSE {}) \cup
  (IF "m" \in Ops THEN LET F == {k \in Labels(S.z) : Flippable(S, k)} IN
     {[op |-> "m", es |-> <<p[1], p[2]>>] : p \in {q \in F \X F : Idx(q[1]) < Idx(q[2]) /\ DisjointSupport(S, {q[1], q[2]})}} ELSE {}) \cup
  (IF "r" \in Ops THEN {[op |-> "r", p |-> p] : p \in AllIsometries(S, S)} \cup
     {[op |-> "r", p |-> TLCEval([l \in Labels(S.z) |-> IF Idx(l) = 0 THEN Rev(l) ELSE l])],
      [op |-> "r", p |-> TLCEval([l \in Labels(S.z) |-> IF Idx(l) = 0 THEN (IF l = 0 THEN 1 ELSE -2) ELSE IF Idx(l) = 1 THEN (IF l = 1 THEN 0 ELSE -1) ELSE l])]} ELSE {}) \cup
  (IF "t" \in Ops /\ Essential(S, x) THEN {[op |-> "t", w |-> CompWeights(S.z, x), k |-> k] : k \in Pows} ELSE {}) \cup
  (IF "t" \in Ops /\ Essential(S, y) THEN {[op |-> "t", w |-> CompWeights(S.z, y), k |-> k] : k \in Pows} ELSE {}) \cup
  (IF "h" \in Ops /\ Spread(S, x) THEN {[op |-> "h", w |-> CompWeights(S.z, x), k |-> k] : k \in Pows} ELSE {})

(* What a move does to the two components, with orientations. *)
After(m) == TLCEval(MvComps(T, m, <<x, y>>))
S2(m) == TLCEval(MvTgt(T, m))

MapSeq(p) == TLCEval([i \in 1..Cardinality(DOMAIN p) |-> p[i - 1 - Cardinality(DOMAIN p) \div 2]])
Show(S) == SetToSeq({LET a == l b == Nx(S, l) c == Pv(S, l) IN <<a, b, c>> : l \in {k \in Labels(S.z) : TriRep(S, k) = k}})
Emit(m, S, u, v) ==
  ~Cfg.emit \/ PrintT("EDGE " \o ToJson([t |-> Show(T), x |-> CompWeights(T.z, x), y |-> CompWeights(T.z, y), i |-> i0,
       m |-> IF m.op = "r" THEN [op |-> "r", p |-> MapSeq(m.p)] ELSE m, s |-> Show(S), u |-> CompWeights(S.z, u), v |-> CompWeights(S.z, v)]))

Step(m) ==
  LET im == After(m) S == S2(m) u == NF(S, im[1]) v == NF(S, im[2]) IN
  /\ ~Heavy(S, u) /\ ~Heavy(S, v)
  /\ T' = S /\ x' = u /\ y' = v /\ UNCHANGED i0
  /\ Emit(m, S, u, v)
Next == \E m \in Moves(T) : Step(m)
Near == TLCGet("level") <= Cfg.depth
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Invariants. *)
TypeOK == IsTri(T) /\ T.z = T0.z
(* the surface never changes *)
SameSurface == Cardinality(VertexReps(T)) = Cardinality(VertexReps(T0)) /\ Cardinality(Components(T)) = Cardinality(Components(T0))
(* normal forms are normal, and coordinates determine the component *)
Normal == NF(T, x) = x /\ NF(T, y) = y
RoundTrip == /\ Decompose(T, CompWeights(T.z, x)) = <<[x |-> x, n |-> 1]>>
             /\ Decompose(T, ScaleW(2, CompWeights(T.z, x))) = <<[x |-> x, n |-> 2]>>
(* geometric intersection is invariant, symmetric, and even on arcs with themselves *)
Invariant == ICount(T, x, y) = i0
Symmetric == ICount(T, y, x) = i0 /\ ICount(T, x, x) = 0
(* disjoint components are those whose sum traces out the two of them *)
Disjoint ==
  LET u == CompWeights(T.z, x) v == CompWeights(T.z, y) s == AddW(u, v) IN
  (i0 = 0) = (/\ \A i \in 1..T.z : u[i] * v[i] >= 0
              /\ ValidWeights(T, s)
              /\ ToSet(Decompose(T, s)) = (IF x = y THEN {[x |-> x, n |-> 2]} ELSE {[x |-> x, n |-> 1], [x |-> y, n |-> 1]}))
(* every move is undone by its inverse *)
Reversible == \A m \in Moves(T) : MvComps(S2(m), MvInv(m), After(m)) = <<OrientedNF(T, x), OrientedNF(T, y)>>
(* a move carries coordinates the way the coordinate-level semantics says *)
Coordinates == \A m \in Moves(T) : MvW(T, m, CompWeights(T.z, x)) = CompWeights(T.z, After(m)[1])
(* i(T_c^k(a), a) = |k| i(a, c)^2 for a curve a, and T_c^k acts on homology by a + k <a, c> c up to sign *)
TwistFormula == Essential(T, x) => \A k \in Pows :
   LET im == MvComps(T, [op |-> "t", w |-> CompWeights(T.z, x), k |-> k], <<y>>)[1]
       d == SubC(CompChain(T, im), CompChain(T, y))
       c == CompChain(T, x)
   IN /\ y.k = "c" => ICount(T, im, y) = Abs(k) * i0 * i0
      /\ \E n \in (-Abs(k) * i0)..(Abs(k) * i0) : (n - k * i0) % 2 = 0 /\ Homologous(T, d, ScaleC(n, c))
(* a half twist has the twist about the boundary of its arc as its square *)
HalfSquare == Spread(T, x) =>
   HalfComp(T, HalfData(T, CompWeights(T.z, x)), 1, HalfComp(T, HalfData(T, CompWeights(T.z, x)), 1, y))
   = DehnTwist(T, WithPositions(T, ArcBoundary(T, x)), 1, y)
(* flips of far apart edges commute, and five flips around a pentagon exchange two labels *)
FlipsCommute == \A a, b \in {k \in Labels(T.z) : Flippable(T, k)} :
   (Idx(a) < Idx(b) /\ DisjointSupport(T, {a, b})) =>
      EncComps(T, <<[op |-> "f", e |-> a], [op |-> "f", e |-> b]>>, <<x, y>>) = EncComps(T, <<[op |-> "f", e |-> b], [op |-> "f", e |-> a]>>, <<x, y>>)
=============================================================================
