------------------------------- MODULE CvEnum -------------------------------
(***************************************************************************)
(* Enumerations: balls in the flip graph, triangulations and arcs disjoint *)
(* from a filling multiarc, curves carried by a train track, tight paths,  *)
(* balls in Cayley graphs, subdivided triangulations, standard generators. *)
(***************************************************************************)
EXTENDS CvGroup

(* A node of the flip graph seen from U: t the triangulation, mv the flips from U, ws[i] the i-th edge of t as an arc of U. *)
FlipNode(U) == [t |-> U, mv |-> <<>>, ws |-> TLCEval([i \in 1..U.z |-> EdgeArcWeights(U, i - 1)])]
FlipTo(n, e) ==
  LET m == [op |-> "f", e |-> e] t == FlipT(n.t, e) mv == Append(n.mv, m)
      x == EncComps(t, EncInv(mv), <<[k |-> "p", e |-> e]>>)[1]
  IN [t |-> t, mv |-> mv, ws |-> [n.ws EXCEPT ![e + 1] = CompWeights(t.z, x)]]
(* All nodes within r flips of edges not in fixed, as a sequence without repetitions (as sets of arcs). *)
RECURSIVE FlipBFS(_, _, _, _, _)
FlipBFS(fixed, r, front, seen, out) ==
  IF r = 0 \/ front = <<>> THEN out ELSE
  LET nexts == FoldLeft(LAMBDA acc, n : acc \o FoldLeft(LAMBDA a2, e : IF n.ws[e + 1] \notin fixed /\ Flippable(n.t, e) THEN Append(a2, FlipTo(n, e)) ELSE a2,
                                                <<>>, TLCEval([i \in 1..n.t.z |-> i - 1])), <<>>, front)
      pick == FoldLeft(LAMBDA acc, n : IF Range(n.ws) \in acc.seen THEN acc ELSE [seen |-> acc.seen \cup {Range(n.ws)}, new |-> Append(acc.new, n)],
                       [seen |-> seen, new |-> <<>>], nexts)
  IN FlipBFS(fixed, r - 1, pick.new, pick.seen, out \o pick.new)
FlipBall(U, fixed, r) == LET n == TLCEval(FlipNode(U)) IN FlipBFS(fixed, r, <<n>>, {Range(n.ws)}, <<n>>)

SumW(z, ws) == FoldSet(LAMBDA w, acc : AddW(acc, w), ZeroW(z), ws)

------------------------------------------------------------------------------
(* Curves which use only the normal arcs that the multicurve w uses.  A turn: enter the triangle left of l, leave across m. *)
CarriedTurns(T, w) == LET ca == CornerFcn(T, w) IN TLCEval([l \in Labels(T.z) |-> (IF ca[l] > 0 THEN {Pv(T, l)} ELSE {}) \cup (IF ca[Nx(T, l)] > 0 THEN {Nx(T, l)} ELSE {})])
Carried(T, w, v) == LET ca == CornerFcn(T, w) cv == CornerFcn(T, v) IN \A l \in Labels(T.z) : cv[l] > 0 => ca[l] > 0
(* Weights of the closed words which cross every oriented edge at most once and make only these turns. *)
RECURSIVE CycleDFS(_, _, _, _, _)
CycleDFS(z, turns, base, word, used) ==
  LET l == Last(word) outs == {m \in turns[Rev(l)] : m > base /\ m \notin used} IN
  (IF base \in turns[Rev(l)] THEN {CompWeights(z, [k |-> "c", w |-> word])} ELSE {})
  \cup UNION {CycleDFS(z, turns, base, Append(word, m), used \cup {m}) : m \in outs}
CycleWeights(T, w) == LET turns == CarriedTurns(T, w) IN UNION {CycleDFS(T.z, turns, b, <<b>>, {b}) : b \in {l \in Labels(T.z) : W(w, l) > 0}}
IsSingleCurve(T, v) == LET D == Decompose(T, v) IN Len(D) = 1 /\ D[1].n = 1 /\ D[1].x.k = "c"
CrossesOnce(T, v) == LET x == Decompose(T, v)[1].x IN Cardinality(ToSet(x.w)) = Len(x.w)
(* those which certainly are vertex cycles in the sense of the code, and those which may be *)
MustCycles(T, w) == {v \in CycleWeights(T, w) : IsSingleCurve(T, v) /\ CrossesOnce(T, v)}
MayCycle(T, w, v) == ValidWeights(T, v) /\ IsSingleCurve(T, v) /\ Carried(T, w, v) /\ \A i \in 1..T.z : v[i] <= 2

------------------------------------------------------------------------------
(* The boundary of a neighbourhood of the union of a multicurve (components C) and a lamination (components M), through the crush of the former. *)
UnionW(S, cr, U, C, M) ==
  LET meets(i) == \E j \in 1..Len(M) : CrossCount(S, C[i].x, M[j].x) > 0
      X == Decompose(U, EncW(S, cr, MultiWeights(S.z, M)))
      apart == SelectSeq(TLCEval([i \in 1..Len(C) |-> [x |-> C[i].x, n |-> IF meets(i) THEN 0 ELSE 2 * C[i].n]]), LAMBDA y : y.n > 0)
  IN AddW(EncW(U, EncInv(cr), BoundaryW(U, X)), MultiWeights(S.z, apart))
SharesComponent(C, M) == \E i \in 1..Len(C), j \in 1..Len(M) : C[i].x = M[j].x
AllPeripheral(S, D) == \A i \in 1..Len(D) : IsPeripheral(S, D[i].x)

------------------------------------------------------------------------------
(* The ball in the Cayley graph: images of the edges under all words of length at most n in the generators gs (move lists). *)
RECURSIVE CayleyBall(_, _, _, _, _)
CayleyBall(T, gs, n, front, seen) ==
  IF n = 0 \/ front = {} THEN seen ELSE
  LET nw == {EncComps(T, gs[k], x) : k \in 1..Len(gs), x \in front} \ seen IN CayleyBall(T, gs, n - 1, nw, seen \cup nw)

------------------------------------------------------------------------------
(* U is T with the triangles (sets of labels) in ts subdivided by a new vertex each; old labels keep their names. *)
Subdivided(T, U, ts) ==
  /\ U.z = T.z + 3 * Cardinality(ts)
  /\ \A l \in Labels(T.z) :
       IF TriOf(T, l) \notin ts THEN Nx(U, l) = Nx(T, l)
       ELSE LET s == Nx(U, l) IN     \* from the far end of l to the new vertex
            /\ s \notin Labels(T.z) /\ Nx(U, s) \notin Labels(T.z)
            /\ Nx(U, Rev(s)) = Nx(T, l) /\ Rev(Pv(U, l)) = Nx(U, Pv(T, l))
SubdividedWeights(T, U, ts, w) ==
  LET ca == CornerFcn(T, w) IN
  TLCEval([i \in 1..U.z |-> IF i <= T.z THEN w[i]
            ELSE LET l == CHOOSE l \in Labels(T.z) : TriOf(T, l) \in ts /\ Idx(Nx(U, l)) = i - 1 IN ca[Nx(T, l)]])

------------------------------------------------------------------------------
(* The standard generators of S_{g,n} [FarbMarg12, Figure 4.10]: which pairs of named curves / arcs meet (once). *)
StdCurves(g, n) ==
  IF g = 0 THEN {} ELSE
  {<<"a", i>> : i \in 0..(g - 1)} \cup {<<"b", i>> : i \in 0..(g - 1)} \cup {<<"c", i>> : i \in 0..(g - 2)}
  \cup {<<"d", i>> : i \in 1..(g - 1)} \cup {<<"p", i>> : i \in 1..(n - 1)}
StdArcs(g, n) == IF g > 0 /\ n = 1 THEN {} ELSE {<<"s", i>> : i \in 0..(n - 1)}
StdMeet1(g, n, x, y) ==
  \/ x[1] = "a" /\ y[1] = "b" /\ x[2] = y[2]
  \/ x[1] = "c" /\ y[1] = "b" /\ y[2] \in {x[2], x[2] + 1}
  \/ x[1] = "d" /\ y[1] = "b" /\ x[2] = y[2]
  \/ x[1] = "p" /\ y[1] = "b" /\ y[2] = g - 1
  \/ g > 0 /\ x = <<"s", 0>> /\ y \in {<<"a", g - 1>>, <<"c", g - 2>>, <<"d", g - 1>>}
  \/ g > 0 /\ x[1] = "s" /\ x[2] > 0 /\ y[1] = "p" /\ x[2] = y[2]
StdMeet(g, n, x, y) == IF StdMeet1(g, n, x, y) \/ StdMeet1(g, n, y, x) THEN 1 ELSE 0

(* Homology modulo 2 of the punctured surface: the edges which a curve crosses an odd number of times. *)
OddEdges(S, x) == {i \in 0..(S.z - 1) : CountLetter(x.w, i) % 2 = 1}
(* reduce x by the rows (which have distinct greatest elements) *)
RECURSIVE ReduceOdd(_, _)
ReduceOdd(rows, x) ==
  IF x = {} THEN x ELSE
  LET m == {r \in rows : Max(r) = Max(x)} IN IF m = {} THEN x ELSE ReduceOdd(rows, SymDiff(x, CHOOSE r \in m : TRUE))
OddRank(X) == Cardinality(FoldSet(LAMBDA x, rows : LET y == ReduceOdd(rows, x) IN IF y = {} THEN rows ELSE rows \cup {y}, {}, X))
=============================================================================
