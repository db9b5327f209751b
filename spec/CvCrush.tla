------------------------------ MODULE CvCrush ------------------------------
(***************************************************************************)
(* Crushing along a curve parallel to a loop edge a, and lifting back.     *)
(*                                                                         *)
(* In the triangle (a b e) on the left of a, the curve runs close to the   *)
(* tail v of a, across the edges v1 = ~e, ..., vk = b out of v strictly    *)
(* between a and ~a, then back through the triangle from b to e.  Cutting  *)
(* along it leaves a strip between the curve and a, which becomes the      *)
(* folded triangle (a b ~b) around a new puncture, while below the curve   *)
(* the triangle collapses: e is glued to the triangle on the left of ~b.   *)
(* The curve's other side becomes a new puncture in place of v.            *)
(***************************************************************************)
EXTENDS CvTwist

RECURSIVE UpTo(_, _)
UpTo(s, x) == IF s = <<>> \/ Head(s) = x THEN <<>> ELSE <<Head(s)>> \o UpTo(Tail(s), x)
LoopSide(T, e) == Tail(UpTo(VertexSeq(T, e), Rev(e)))       \* edges strictly between e and ~e
IsLoopEdge(T, e) == Rev(e) \in VertexSet(T, e)

CrushOK(T, a) == IsLoopEdge(T, a) /\ Len(LoopSide(T, a)) >= 2
SwapLabel(b, e, l) == IF l = e THEN Rev(b) ELSE IF l = Rev(b) THEN e ELSE l
(* b = Nx(T, a) and e = Pv(T, a) before; the same swap goes there and back *)
CrushT(T, a, e) ==
  LET b == Nx(T, a) m(l) == SwapLabel(b, e, l) IN
  [z |-> T.z, nx |-> TLCEval([l \in Labels(T.z) |-> m(T.nx[m(l)])])]

(* The curve, directed anticlockwise about v, with positions (it is nearest to v on every edge). *)
CrushWord(T, a) == LET V == LoopSide(T, a) IN TLCEval([i \in 1..Len(V) |-> Rev(V[i])])
CrushCurve(T, a) ==
  LET w == CrushWord(T, a) wt == CompWeights(T.z, [k |-> "c", w |-> w]) IN
  [k |-> "c", w |-> w, q |-> TLCEval([i \in 1..Len(w) |-> W(wt, w[i]) - 1]), wt |-> wt]

(* Rewriting letters.  in: are we in the strip?  s: letters since the strip was entered. *)
RECURSIVE Recross(_, _, _, _, _, _, _)
Recross(a, b, e, k, in, s, w) ==
  IF w = <<>> THEN <<>>
  ELSE LET x == Head(w) r == Tail(w) IN
    IF in THEN IF x = a THEN (IF s = <<>> THEN <<>> ELSE Repeat(IF s[1] = e THEN <<Rev(b)>> ELSE <<b>>, Len(s) \div k))
                            \o <<a>> \o Recross(a, b, e, k, FALSE, <<>>, r)
               ELSE Recross(a, b, e, k, TRUE, Append(s, x), r)
    ELSE IF x = Rev(a) THEN <<Rev(a)>> \o Recross(a, b, e, k, TRUE, <<>>, r)
    ELSE IF x = Rev(b) THEN (IF r # <<>> /\ Head(r) = e THEN <<e>> \o Recross(a, b, e, k, FALSE, <<>>, Tail(r)) ELSE <<>>)
    ELSE IF x = Rev(e) THEN (IF r # <<>> /\ Head(r) = b THEN <<Rev(e)>> \o Recross(a, b, e, k, FALSE, <<>>, Tail(r)) ELSE <<>>)
    ELSE <<x>> \o Recross(a, b, e, k, FALSE, <<>>, r)
(* strip letters left over at the end of a path that finishes at a corner of the strip *)
RECURSIVE StripTail(_, _, _, _)
StripTail(a, in, s, w) ==
  IF w = <<>> THEN (IF in THEN s ELSE <<>>)
  ELSE IF in THEN (IF Head(w) = a THEN StripTail(a, FALSE, <<>>, Tail(w)) ELSE StripTail(a, TRUE, Append(s, Head(w)), Tail(w)))
  ELSE StripTail(a, Head(w) = Rev(a), <<>>, Tail(w))

(* A piece of a component: ends are [c |-> TRUE, t] (at the curve, t of whose letters precede) or [c |-> FALSE, v] (at a corner). *)
CrushPiece(T, T2, a, side1, end1, w, side2, end2) ==      \* side: is the piece in the strip at that end?
  LET b == Nx(T, a) e == Pv(T, a) V == LoopSide(T, a) k == Len(V)
      m(l) == SwapLabel(b, e, l)
      folded(t) == t % k = 0 \/ V[t % k] = e
      \* corner outside the strip and the number of letters it swallows, seen with the word leading away from it
      outer(en, u) ==
        IF en.c THEN (IF folded(en.t) THEN (IF u[1] = e THEN <<m(V[1]), 1>> ELSE <<m(V[k - 1]), 1>>) ELSE <<m(V[en.t % k]), 0>>)
        ELSE IF en.v = e THEN (IF u[1] = e THEN <<m(Nx(T, Rev(e))), 1>> ELSE <<e, 1>>)
        ELSE <<m(en.v), 0>>
      inner(en) == IF en.c THEN Rev(b) ELSE en.v
      collapsed(en) == IF en.c THEN folded(en.t) ELSE en.v = e
  IN IF side1 /\ side2 /\ a \notin ToSet(w)
     THEN (IF end1.c # end2.c THEN [k |-> "p", e |-> b] ELSE [k |-> "0"])
     ELSE IF ~side1 /\ ~side2 /\ w = <<>> /\ (collapsed(end1) \/ collapsed(end2))
     THEN [k |-> "p", e |-> e]
     ELSE LET n1 == IF side1 THEN <<inner(end1), 0>> ELSE outer(end1, w)
              n2 == IF side2 THEN <<inner(end2), 0>> ELSE outer(end2, RevWord(w))
              \* letters inside the strip next to an end on the curve do not matter: the spiral unwinds
              cut1 == IF side1 /\ end1.c THEN (CHOOSE i \in 1..Len(w) : w[i] = a /\ \A j \in 1..(i - 1) : w[j] # a) - 1 ELSE n1[2]
              cut2 == IF side2 /\ end2.c THEN Len(w) - (CHOOSE i \in 1..Len(w) : w[i] = Rev(a) /\ \A j \in (i + 1)..Len(w) : w[j] # Rev(a)) ELSE n2[2]
              core == SubSeq(w, cut1 + 1, Len(w) - cut2)
              tl == IF side2 /\ ~end2.c THEN StripTail(a, side1, <<>>, core) ELSE <<>>
              out == Recross(a, b, e, k, side1, <<>>, core)
                     \o (IF tl = <<>> THEN <<>> ELSE Repeat(IF tl[1] = e THEN <<Rev(b)>> ELSE <<b>>, Len(tl) \div k))
          IN ArcNF(T2, n1[1], out, n2[1])

StripCorners(T, a) == {a} \cup ToSet(LoopSide(T, a))
(* The pieces of one component, as components on the crushed triangulation (a piece may be trivial). *)
CrushComp(T, T2, a, v, x) ==
  LET b == Nx(T, a) e == Pv(T, a) k == Len(v.w)
      u == AsPath(T, x)
      cl == CrossList(T, x, v)
      n == Len(cl)
      strip == StripCorners(T, a)
      at(i) == [c |-> TRUE, t |-> cl[i].t, v |-> 0]
      corner(l) == [c |-> FALSE, t |-> 0, v |-> l]
      \* the curve is directed with the strip on its left: heading to our left we come from its left
      before(i) == cl[i].sl = 1
      after(i) == cl[i].sl = -1
  IN IF x.k = "p" /\ n = 0 THEN <<[k |-> "p", e |-> SwapLabel(b, e, x.e)]>>
     ELSE IF ~IsClosed(u) THEN
       TLCEval([i \in 1..(n + 1) |->
         CrushPiece(T, T2, a,
           IF i = 1 THEN u.c \in strip ELSE after(i - 1), IF i = 1 THEN corner(u.c) ELSE at(i - 1),
           SubSeq(u.w, (IF i = 1 THEN 0 ELSE cl[i - 1].pos) + 1, IF i = n + 1 THEN Len(u.w) ELSE cl[i].pos),
           IF i = n + 1 THEN u.d \in strip ELSE before(i), IF i = n + 1 THEN corner(u.d) ELSE at(i))])
     ELSE IF n > 0 THEN
       TLCEval([i \in 1..n |->
         LET j == (i % n) + 1
             seg == IF j > i THEN SubSeq(u.w, cl[i].pos + 1, cl[j].pos) ELSE SubSeq(u.w, cl[i].pos + 1, Len(u.w)) \o SubSeq(u.w, 1, cl[j].pos)
         IN CrushPiece(T, T2, a, after(i), at(i), seg, before(j), at(j))])
     ELSE IF NF(T, x) = NF(T, [k |-> "c", w |-> v.w]) THEN <<>>      \* the curve itself vanishes
     ELSE LET L == Len(u.w)
              s == CHOOSE i \in 1..L : IF \E j \in 1..L : u.w[j] = a \/ u.w[j] = Rev(a)
                                       THEN (u.w[i] = a \/ u.w[i] = Rev(a)) ELSE u.w[i] \notin {Rev(b), Rev(e)}
              r == Rot(u.w, (s % L) + 1)           \* ends with that letter
              in0 == Last(r) = Rev(a)
          IN <<NF(T2, [k |-> "c", w |-> Recross(a, b, e, k, in0, <<>>, r)])>>

CrushDW(T, a, D) ==
  LET T2 == CrushT(T, a, Pv(T, a)) v == CrushCurve(T, a) IN
  FoldLeft(LAMBDA acc, m : FoldLeft(LAMBDA ac, y : AddW(ac, ScaleW(m.n, CompWeights(T.z, y))), acc, CrushComp(T, T2, a, v, m.x)), ZeroW(T.z), D)
CrushW(T, a, w) == CrushDW(T, a, Decompose(T, w))

(* Lifting a component of the crushed triangulation that avoids both new punctures; T is the target. *)
LiftComp(T, a, y) ==
  LET b == Nx(T, a) e == Pv(T, a) W1 == CrushWord(T, a)
      m(l) == SwapLabel(b, e, l)
      lt(l) == IF l = e THEN <<Rev(b), e>> ELSE IF l = Rev(e) THEN <<Rev(e), b>>
               ELSE IF l = Rev(b) THEN W1 ELSE IF l = b THEN RevWord(W1) ELSE <<l>>
      w(s) == FoldLeft(LAMBDA acc, l : acc \o lt(l), <<>>, s)
  IN CASE y.k = "c" -> NF(T, [k |-> "c", w |-> w(y.w)])
       [] y.k = "a" -> NF(T, [k |-> "a", c |-> m(y.c), w |-> w(y.w), d |-> m(y.d)])
       [] OTHER -> y
LiftW(T2, a, e, w) ==
  LET T == CrushT(T2, a, e) D == Decompose(T2, w) IN
  FoldLeft(LAMBDA acc, m : AddW(acc, ScaleW(m.n, CompWeights(T.z, LiftComp(T, a, m.x)))), ZeroW(T.z), D)
(* does the lamination end at one of the new punctures?  (then it cannot be lifted) *)
EndsAtNew(T2, a, e, D) ==
  LET b == Nx(T2, a) vr == VRep(T2) new == {vr[Rev(b)], vr[Rev(e)]} IN
  \E i \in 1..Len(D) : IsArcKind(D[i].x) /\ LET p == AsPath(T2, D[i].x) IN vr[p.c] \in new \/ vr[p.d] \in new
=============================================================================
