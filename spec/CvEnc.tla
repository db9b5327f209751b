------------------------------- MODULE CvEnc -------------------------------
(***************************************************************************)
(* Moves and encodings.  An encoding is denoted by its source triangulation *)
(* and the sequence of its moves in the order in which they are applied:    *)
(*   [op |-> "f", e]      flip                                              *)
(*   [op |-> "m", es]     simultaneous flips (sequence of labels)           *)
(*   [op |-> "r", p]      relabelling, p a function on labels               *)
(*   [op |-> "t", w, k]   k-th power of the right multitwist about w        *)
(*   [op |-> "h", w, k]   k-th power of the right half twists about w       *)
(*   [op |-> "crush", e, f] cut along the curve parallel to the loop e       *)
(*   [op |-> "lift", e, f]  back again, for laminations off the new punctures *)
(* Everything is defined on words; coordinates follow.                      *)
(***************************************************************************)
EXTENDS CvCrush

MvTgt(T, m) ==
  CASE m.op = "f" -> FlipT(T, m.e)
    [] m.op = "m" -> MultiFlipT(T, ToSet(m.es))
    [] m.op = "r" -> RelabelT(T, m.p)
    [] m.op \in {"crush", "lift"} -> CrushT(T, m.e, m.f)
    [] OTHER -> T

RECURSIVE EncTgt(_, _)
EncTgt(T, mv) == IF mv = <<>> THEN T ELSE EncTgt(MvTgt(T, Head(mv)), Tail(mv))

MvInv(m) ==
  CASE m.op = "f" -> [op |-> "f", e |-> Rev(m.e)]
    [] m.op = "m" -> [op |-> "m", es |-> TLCEval([i \in 1..Len(m.es) |-> Rev(m.es[i])])]
    [] m.op = "r" -> [op |-> "r", p |-> TLCEval([l \in DOMAIN m.p |-> CHOOSE k \in DOMAIN m.p : m.p[k] = l])]
    [] m.op = "crush" -> [m EXCEPT !.op = "lift"]
    [] m.op = "lift" -> [m EXCEPT !.op = "crush"]
    [] OTHER -> [m EXCEPT !.k = -m.k]
EncInv(mv) == TLCEval([i \in 1..Len(mv) |-> MvInv(mv[Len(mv) + 1 - i])])
EncPow(mv, k) == IF k >= 0 THEN Repeat(mv, k) ELSE Repeat(EncInv(mv), -k)

IdRelabel(z) == [op |-> "r", p |-> TLCEval([l \in Labels(z) |-> l])]

------------------------------------------------------------------------------
(* The supports of a twist: sequence of [v, n] with v a component with positions. *)
TwistData(T, w) ==
  LET D == SelectSeq(Decompose(T, w), LAMBDA m : m.x.k = "c" /\ ~IsPeripheral(T, m.x)) IN
  TLCEval([i \in 1..Len(D) |-> [v |-> WithPositions(T, D[i].x), x |-> D[i].x, n |-> D[i].n]])
HalfData(T, w) ==
  LET D == Decompose(T, w) IN
  TLCEval([i \in 1..Len(D) |-> [v |-> WithPositions(T, D[i].x), x |-> D[i].x, n |-> D[i].n]])
(* has_distinct_endpoints: all components arcs, multiplicity one, and no two ends at the same vertex. *)
EndVertices(T, x) == LET a == AsPath(T, x) vr == VRep(T) IN <<vr[a.c], vr[a.d]>>
DistinctEnds(T, D) ==
  /\ \A i \in 1..Len(D) : IsArcKind(D[i].x)
  /\ LET vs == UNION {{EndVertices(T, D[i].x)[1], EndVertices(T, D[i].x)[2]} : i \in 1..Len(D)} IN
     Cardinality(vs) = 2 * SumSeq(TLCEval([i \in 1..Len(D) |-> D[i].n]))

(* Image of an oriented component. *)
TwistComp(T, data, k, u) == FoldLeft(LAMBDA acc, d : DehnTwist(T, d.v, k * d.n, acc), u, data)
HalfComp(T, data, k, u) ==
  FoldLeft(LAMBDA acc, d :
     IF k % 2 = 0 THEN DehnTwist(T, WithPositions(T, ArcBoundary(T, d.x)), k \div 2, acc)
     ELSE HalfTwist1(T, d.v, TRUE, IF k = 1 THEN acc ELSE DehnTwist(T, WithPositions(T, ArcBoundary(T, d.x)), (k - 1) \div 2, acc)),
     u, data)
(* ArcBoundary of an arc joining the two punctures of S_{0,3} etc. may be peripheral: a twist about it is trivial. *)

RECURSIVE MultiFlipComp(_, _, _)
MultiFlipComp(T, es, x) ==
  IF es = <<>> THEN x ELSE
  LET T2 == FlipT(T, Head(es)) IN MultiFlipComp(T2, Tail(es), FlipComp(T, Head(es), T2, x))

MvComps(T, m, xs) ==                 \* xs: sequence of oriented components
  CASE m.op = "f" -> LET T2 == FlipT(T, m.e) IN TLCEval([i \in 1..Len(xs) |-> FlipComp(T, m.e, T2, xs[i])])
    [] m.op = "m" -> TLCEval([i \in 1..Len(xs) |-> MultiFlipComp(T, m.es, xs[i])])
    [] m.op = "r" -> TLCEval([i \in 1..Len(xs) |-> RelabelComp(m.p, xs[i])])
    [] m.op = "t" -> LET d == TwistData(T, m.w) IN TLCEval([i \in 1..Len(xs) |-> TwistComp(T, d, m.k, xs[i])])
    [] m.op = "h" -> LET d == HalfData(T, m.w) IN TLCEval([i \in 1..Len(xs) |-> HalfComp(T, d, m.k, xs[i])])

RECURSIVE EncComps(_, _, _)
EncComps(T, mv, xs) ==
  IF mv = <<>> THEN xs
  ELSE LET ys == MvComps(T, Head(mv), xs) T2 == MvTgt(T, Head(mv)) IN EncComps(T2, Tail(mv), ys)

------------------------------------------------------------------------------
(* Coordinates. *)
(* Beyond this power the coordinates of the image grow linearly: the loops inserted at a crossing
   cancel only against the run that the component and the curve share there, and (when several
   curves are twisted about) against the other curves. *)
MaxRun(T, u0, v) ==
  LET u == AsPath(T, u0)
      vb == [k |-> "c", w |-> v.w] vr == RevComp(vb)
      prs == {x \in (1..Len(u.w)) \X (1..Len(v.w)) : u.w[x[1]] = v.w[x[2]]}
      prr == {x \in (1..Len(u.w)) \X (1..Len(v.w)) : u.w[x[1]] = vr.w[x[2]]}
  IN Max({0} \cup {RunLen(u, x[1], vb, x[2], 1) : x \in prs} \cup {RunLen(u, x[1], vr, x[2], 1) : x \in prr})
LinearFrom(T, u, v, others) == (MaxRun(T, u, v) + 2 * others) \div Len(v.w) + 3
(* Weights of the image of the unoriented component u under the twists of data, powers k*n. *)
TwistCompW(T, data, k, u) ==
  LET kk(d) == k * d.n
      tot == SumSeq(TLCEval([i \in 1..Len(data) |-> Len(data[i].v.w)]))
      capped(d) == LET b == LinearFrom(T, u, d.v, tot - Len(d.v.w)) IN
                   IF u.k = "0" \/ Abs(kk(d)) <= 3 \/ Abs(kk(d)) <= b THEN kk(d) ELSE (IF kk(d) > 0 THEN 1 ELSE -1) * b
      caps == TLCEval([i \in 1..Len(data) |-> capped(data[i])])
      y == FoldLeft(LAMBDA acc, i : DehnTwist(T, data[i].v, caps[i], acc), u, TLCEval([i \in 1..Len(data) |-> i]))
      extra == FoldLeft(LAMBDA acc, i : IF caps[i] = kk(data[i]) THEN acc
                   ELSE AddW(acc, ScaleW((Abs(kk(data[i])) - Abs(caps[i])) * CrossCount(T, u, data[i].x), CompWeights(T.z, data[i].x))), ZeroW(T.z), TLCEval([i \in 1..Len(data) |-> i]))
  IN AddW(CompWeights(T.z, y), extra)
TwistW(T, data, k, w) ==
  LET D == Decompose(T, w) IN
  FoldLeft(LAMBDA acc, m : AddW(acc, ScaleW(m.n, TwistCompW(T, data, k, m.x))), ZeroW(T.z), D)
HalfW(T, data, k, w) ==
  LET D == Decompose(T, w)
      one == TLCEval([i \in 1..Len(data) |-> [v |-> WithPositions(T, ArcBoundary(T, data[i].x)), x |-> ArcBoundary(T, data[i].x), n |-> 1]])
      real == SelectSeq(one, LAMBDA d : ~IsPeripheral(T, d.x))
      half(u) == FoldLeft(LAMBDA acc, d : HalfTwist1(T, d.v, TRUE, acc), u, data)
      img(u) == IF k % 2 = 0 THEN TwistCompW(T, real, k \div 2, u)
                ELSE TwistCompW(T, real, (k - 1) \div 2, NF(T, half(u)))
  IN FoldLeft(LAMBDA acc, m : AddW(acc, ScaleW(m.n, img(m.x))), ZeroW(T.z), D)

RECURSIVE MultiFlipW(_, _, _)
MultiFlipW(T, es, w) == IF es = <<>> THEN w ELSE MultiFlipW(FlipT(T, Head(es)), Tail(es), FlipW(T, Head(es), w))
RelabelW(p, w) == TLCEval([i \in 1..Len(w) |-> w[Idx(CHOOSE l \in DOMAIN p : p[l] = i - 1) + 1]])

MvW(T, m, w) ==
  CASE m.op = "f" -> FlipW(T, m.e, w)
    [] m.op = "m" -> MultiFlipW(T, m.es, w)
    [] m.op = "r" -> RelabelW(m.p, w)
    [] m.op = "t" -> TwistW(T, TwistData(T, m.w), m.k, w)
    [] m.op = "h" -> HalfW(T, HalfData(T, m.w), m.k, w)
    [] m.op = "crush" -> CrushW(T, m.e, w)
    [] m.op = "lift" -> LiftW(T, m.e, m.f, w)
RECURSIVE EncW(_, _, _)
EncW(T, mv, w) == IF mv = <<>> THEN w ELSE EncW(MvTgt(T, Head(mv)), Tail(mv), MvW(T, Head(mv), w))

------------------------------------------------------------------------------
(* Equality of mapping classes: images of all oriented edges. *)
EdgeArcs(z) == TLCEval([i \in 1..z |-> [k |-> "p", e |-> i - 1]])
EncImages(T, mv) == EncComps(T, mv, EdgeArcs(T.z))
EncEq(T, m1, m2) == EncTgt(T, m1) = EncTgt(T, m2) /\ EncImages(T, m1) = EncImages(T, m2)
IsIdentityEnc(T, mv) == EncTgt(T, mv) = T /\ EncImages(T, mv) = EdgeArcs(T.z)

------------------------------------------------------------------------------
(* The curve on the boundary of an edge (the candidate anticlockwise from e to ~e when e is a loop). *)
EdgeCurveWeights(T, e) ==
  IF IsLoopEdge(T, e)
  THEN CompWeights(T.z, NF(T, [k |-> "c", w |-> LET s == LoopSide(T, e) IN TLCEval([i \in 1..Len(s) |-> Rev(s[i])])]))
  ELSE CompWeights(T.z, ArcBoundary(T, [k |-> "p", e |-> e]))
EdgeArcWeights(T, e) == TLCEval([i \in 1..T.z |-> IF i = Idx(e) + 1 THEN -1 ELSE 0])

(* p given as a sequence: label l at position l + z + 1. *)
SeqToMap(s) == LET z == Len(s) \div 2 IN TLCEval([l \in Labels(z) |-> s[l + z + 1]])
(* Moves from the recorded form of an item; B is the triangulation the whole sequence starts from:
   a partial map that does not determine every edge is completed to the isometry back to B. *)
PairMap(z, ps) ==       \* a relabelling given on one orientation of each edge at least
  LET g == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
      full == g \cup {<<Rev(x[1]), Rev(x[2])>> : x \in {y \in g : \A q \in g : q[1] # Rev(y[1])}}
  IN PairsToFcn(full)
ItemMove(B, T, it) ==
  CASE it.op = "f" -> [op |-> "f", e |-> it.e]
    [] it.op = "m" -> [op |-> "m", es |-> it.es]
    [] it.op = "r" -> [op |-> "r", p |-> SeqToMap(it.p)]
    [] it.op = "pr" -> [op |-> "r", p |-> PairMap(T.z, it.m)]
    [] it.op = "pi" -> [op |-> "r", p |-> CHOOSE p \in FindIso(T, B, it.m) : TRUE]
    [] it.op = "id" -> IdRelabel(T.z)
    [] it.op = "crush" -> [op |-> "crush", e |-> it.e, f |-> Pv(T, it.e)]
    [] it.op = "lift" -> [op |-> "lift", e |-> it.e, f |-> CHOOSE f \in Labels(T.z) : CrushT(T, it.e, f) = it.u]
    [] it.op = "e" -> IF IsLoopEdge(T, it.e) THEN [op |-> "t", w |-> EdgeCurveWeights(T, it.e), k |-> it.k]
                      ELSE [op |-> "h", w |-> EdgeArcWeights(T, it.e), k |-> it.k]
    [] OTHER -> it
IsRelabel(z, p) == DOMAIN p = Labels(z) /\ Range(p) = Labels(z) /\ \A l \in Labels(z) : p[Rev(l)] = Rev(p[l])
ItemOK(B, T, it) ==
  CASE it.op = "f" -> it.e \in Labels(T.z) /\ Flippable(T, it.e)
    [] it.op = "m" -> ToSet(it.es) \subseteq Labels(T.z) /\ Cardinality({Idx(it.es[i]) : i \in 1..Len(it.es)}) = Len(it.es)
                      /\ DisjointSupport(T, ToSet(it.es))
    [] it.op = "r" -> Len(it.p) = 2 * T.z /\ IsRelabel(T.z, SeqToMap(it.p))
    [] it.op = "pr" -> IsRelabel(T.z, PairMap(T.z, it.m))
    [] it.op = "pi" -> FindIso(T, B, it.m) # {}
    [] it.op = "id" -> TRUE
    [] it.op = "crush" -> it.e \in Labels(T.z) /\ CrushOK(T, it.e)
    [] it.op = "lift" -> it.e \in Labels(T.z) /\ CrushOK(it.u, it.e) /\ \E f \in Labels(T.z) : CrushT(T, it.e, f) = it.u
    [] it.op = "e" -> it.e \in Labels(T.z) /\ it.k # 0 /\ it.k \in (-999)..999
    [] OTHER -> FALSE
(* does applying the moves to w at some point lift something that ends at a new puncture? *)
RECURSIVE Refused(_, _, _)
Refused(T, mv, w) ==
  mv # <<>> /\ LET m == Head(mv) IN
    (m.op = "lift" /\ EndsAtNew(T, m.e, m.f, Decompose(T, w))) \/ Refused(MvTgt(T, m), Tail(mv), MvW(T, m, w))
RECURSIVE ItemsOKFrom(_, _, _)
ItemsOKFrom(B, T, its) ==
  its = <<>> \/ (ItemOK(B, T, Head(its)) /\ ItemsOKFrom(B, MvTgt(T, ItemMove(B, T, Head(its))), Tail(its)))
ItemsOK(T, its) == ItemsOKFrom(T, T, its)
RECURSIVE ItemMovesFrom(_, _, _)
ItemMovesFrom(B, T, its) ==
  IF its = <<>> THEN <<>> ELSE
  LET m == ItemMove(B, T, Head(its)) IN <<m>> \o ItemMovesFrom(B, MvTgt(T, m), Tail(its))
ItemMoves(T, its) == ItemMovesFrom(T, T, its)

(* total weights of the images of w under the powers of the map, until they are large *)
RECURSIVE Growth(_, _, _, _)
Growth(T, mv, w, acc) ==
  IF Len(acc) > 13 \/ Last(acc) > 20000 THEN acc
  ELSE LET x == TLCEval(EncW(T, mv, w)) IN Growth(T, mv, x, Append(acc, FoldLeft(LAMBDA s, v : s + Pos(v), 0, x)))
=============================================================================
