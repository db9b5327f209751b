------------------------------ MODULE CvTwist ------------------------------
(***************************************************************************)
(* Geometric intersection, Dehn twists and half twists of components given *)
(* as reduced words.  Two lifts to the dual tree cross iff, along their    *)
(* maximal common run, they enter and leave on opposite sides.             *)
(***************************************************************************)
EXTENDS CvWords

IsClosed(u) == u.k = "c"
At(w, i) == w[((i - 1) % Len(w)) + 1]

(* Side from which path u arrives before its i-th letter: -1 left, 0 corner, 1 right. *)
BackRank(T, u, i) == IF ~IsClosed(u) /\ i = 1 THEN 0
                     ELSE IF Rev(At(u.w, i - 1 + Len(u.w))) = Nx(T, At(u.w, i)) THEN -1 ELSE 1
FwdRank(T, u, i) == IF ~IsClosed(u) /\ i = Len(u.w) THEN 0
                    ELSE IF At(u.w, i + 1) = Nx(T, Rev(At(u.w, i))) THEN 1 ELSE -1

(* Is there a letter after / before position i? *)
HasNext(u, i) == IsClosed(u) \/ i < Len(u.w)
HasPrev(u, i) == IsClosed(u) \/ i > 1

(* Length of the common run of u from i and v from j; -1 if it never ends. *)
RECURSIVE RunLen(_, _, _, _, _)
RunLen(u, i, v, j, n) ==
  IF n > Len(u.w) + Len(v.w) THEN -1
  ELSE IF HasNext(u, i + n - 1) /\ HasNext(v, j + n - 1) /\ At(u.w, i + n) = At(v.w, j + n)
       THEN RunLen(u, i, v, j, n + 1) ELSE n

WrapIdx(u, i) == ((i - 1) % Len(u.w)) + 1

(* +1: v crosses u from right to left along the run starting at (i,j); -1: left to right; 0: not crossing / not a run start *)
RunSign(T, u, i, v, j) ==
  IF u.w[i] # v.w[j] THEN 0
  ELSE IF HasPrev(u, i) /\ HasPrev(v, j) /\ At(u.w, i - 1 + Len(u.w)) = At(v.w, j - 1 + Len(v.w)) THEN 0
  ELSE LET su == BackRank(T, u, i) sv == BackRank(T, v, j) IN
       IF su = sv THEN 0
       ELSE LET n == RunLen(u, i, v, j, 1) IN
            IF n < 0 THEN 0
            ELSE LET eu == FwdRank(T, u, WrapIdx(u, i + n - 1)) ev == FwdRank(T, v, WrapIdx(v, j + n - 1)) IN
                 IF su < sv /\ eu > ev THEN 1
                 ELSE IF su > sv /\ eu < ev THEN -1 ELSE 0

(* Where a path passes from letter i to the next one, cutting a corner: <<corner, dir>>
   dir = 1 anticlockwise about the vertex (in across c, out across Pv(c)), -1 clockwise. *)
CutCorner(T, u, i) ==
  LET x == Rev(At(u.w, i)) y == At(u.w, i + 1) IN
  IF y = Pv(T, x) THEN <<x, 1>> ELSE <<y, -1>>
PassIdx(u) == IF IsClosed(u) THEN 1..Len(u.w) ELSE 1..(Len(u.w) - 1)
(* The corners at which an arc ends (with the triangle they lie in). *)
EndCorners(u) == IF IsClosed(u) THEN {} ELSE {<<1, u.c>>, <<2, u.d>>}

(* Number of crossings; u and v in normal form. *)
CountLetter(w, e) == Cardinality({i \in 1..Len(w) : w[i] = e \/ w[i] = Rev(e)})
CrossCount(T, u, v) ==
  IF u.k = "0" \/ v.k = "0" THEN 0
  ELSE IF u.k = "p" THEN (IF v.k = "p" THEN 0 ELSE CountLetter(v.w, u.e))
  ELSE IF v.k = "p" THEN CountLetter(u.w, v.e)
  ELSE
   LET vr == RevComp(v) IN
   Cardinality({x \in (1..Len(u.w)) \X (1..Len(v.w)) : u.w[x[1]] = v.w[x[2]] /\ RunSign(T, u, x[1], v, x[2]) # 0})
   + Cardinality({x \in (1..Len(u.w)) \X (1..Len(v.w)) : u.w[x[1]] = vr.w[x[2]] /\ RunSign(T, u, x[1], vr, x[2]) # 0})
   + Cardinality({x \in EndCorners(u) \X PassIdx(v) : CutCorner(T, v, x[2])[1] = x[1][2]})
   + Cardinality({x \in EndCorners(v) \X PassIdx(u) : CutCorner(T, u, x[2])[1] = x[1][2]})
   + Cardinality({x \in EndCorners(u) \X EndCorners(v) : x[1][2] # x[2][2] /\ TriRep(T, x[1][2]) = TriRep(T, x[2][2])})

(* Intersection number of two decompositions. *)
Inter(T, ms, ns) ==
  SumSeq(TLCEval([i \in 1..Len(ms) |-> SumSeq(TLCEval([j \in 1..Len(ns) |-> ms[i].n * ns[j].n * CrossCount(T, ms[i].x, ns[j].x)]))]))

------------------------------------------------------------------------------
(* Strand positions: v with, for each letter, its position on that edge (from the letter's tail). *)
WithPositions(T, v) ==
  IF v.k = "p" THEN [k |-> "a", c |-> v.e, w |-> <<>>, d |-> Nx(T, v.e), q |-> <<>>, wt |-> ZeroW(T.z)]
  ELSE
  LET wt == CompWeights(T.z, v)
      ca == CornerFcn(T, wt)
  IN IF v.k = "c" THEN
       LET l == Rev(v.w[1])
           \* trace the strand at position 0 of the first letter's edge: some strand of the (connected) curve
           r == TraceFrom(T, wt, ca, l, 0, <<l, 0>>, <<>>).path
       IN [k |-> "c", w |-> Letters(r), q |-> TLCEval([i \in 1..Len(r) |-> r[i][2]]), wt |-> wt]
     ELSE
       LET c0 == v.c m == Nx(T, c0) q == ca[m]
           \* at a given start corner there may be two strands (both ends): take the one with v's word
           try(p) == TraceFrom(T, wt, ca, Rev(m), CrossPos(wt, m, p), <<0, -1>>, <<<<m, p>>>>)
           p0 == CHOOSE p \in q..(q + Terminals(T, wt, c0) - 1) : Letters(try(p).path) = v.w
           r == try(p0).path
       IN [k |-> "a", c |-> v.c, w |-> v.w, d |-> v.d, q |-> TLCEval([i \in 1..Len(r) |-> r[i][2]]), wt |-> wt]

(* All crossings of u with v (v from WithPositions, with letters), ordered along u.
   pos: letters of u before the crossing; t: letters of v before it; sl: +1 if v heads to u's left. *)
CrossList(T, u0, v) ==
  LET u == AsPath(T, u0)
      n == Len(u.w)  m == Len(v.w)
      vb == IF IsClosed(v) THEN [k |-> "c", w |-> v.w] ELSE [k |-> "a", c |-> v.c, w |-> v.w, d |-> v.d]
      vr == RevComp(vb)
      runs1 == {[pos |-> x[1] - 1, cls |-> 2,
                 key |-> -RunSign(T, u, x[1], vb, x[2]) * v.q[x[2]],
                 t |-> x[2] - 1, sl |-> RunSign(T, u, x[1], vb, x[2])] :
                 x \in {y \in (1..n) \X (1..m) : u.w[y[1]] = v.w[y[2]] /\ RunSign(T, u, y[1], vb, y[2]) # 0}}
      runs2 == {[pos |-> x[1] - 1, cls |-> 2,
                 key |-> -RunSign(T, u, x[1], vr, x[2]) * CrossPos(v.wt, v.w[m + 1 - x[2]], v.q[m + 1 - x[2]]),
                 t |-> m + 1 - x[2], sl |-> -RunSign(T, u, x[1], vr, x[2])] :
                 x \in {y \in (1..n) \X (1..m) : u.w[y[1]] = vr.w[y[2]] /\ RunSign(T, u, y[1], vr, y[2]) # 0}}
      \* distance from the vertex of a passing strand of v cutting corner c between letters j, j+1
      dist(j) == LET cc == CutCorner(T, vb, j) y == WrapIdx(v, j + 1) IN
                 IF cc[2] = 1 THEN PW(v.wt, v.w[y]) - 1 - v.q[y] ELSE v.q[y]
      z1 == IF IsClosed(u) THEN {} ELSE
            {[pos |-> 0, cls |-> 0, key |-> dist(j), t |-> j, sl |-> CutCorner(T, vb, j)[2]] :
              j \in {k \in PassIdx(v) : m > 0 /\ CutCorner(T, vb, k)[1] = u.c}}
      z2 == IF IsClosed(u) THEN {} ELSE
            {[pos |-> n, cls |-> 9, key |-> -dist(j), t |-> j, sl |-> -CutCorner(T, vb, j)[2]] :
              j \in {k \in PassIdx(v) : m > 0 /\ CutCorner(T, vb, k)[1] = u.d}}
      \* u passing a corner where v ends.  v heads out of (start) or into (end) the vertex;
      \* u anticlockwise about the vertex has the vertex on its left.
      z3 == IF m = 0 \/ n = 0 THEN {} ELSE
            {[pos |-> x[1], cls |-> 1, key |-> 0, t |-> IF x[2][1] = 1 THEN 0 ELSE m,
              sl |-> (IF x[2][1] = 1 THEN -1 ELSE 1) * CutCorner(T, u, x[1])[2]] :
              x \in {y \in PassIdx(u) \X EndCorners(v) : CutCorner(T, u, y[1])[1] = y[2][2]}}
      \* both end in the same triangle at different corners
      z4 == IF m = 0 \/ IsClosed(u) THEN {} ELSE
            {[pos |-> 0, cls |-> 1, key |-> 0, t |-> IF y[1] = 1 THEN 0 ELSE m,
              \* u runs from corner u.c; v's corner is Nx(u.c) (on u's right) or Pv(u.c) (left)
              sl |-> (IF y[1] = 1 THEN 1 ELSE -1) * (IF y[2] = Nx(T, u.c) THEN 1 ELSE -1)] :
              y \in {e \in EndCorners(v) : e[2] # u.c /\ TriRep(T, e[2]) = TriRep(T, u.c) /\ (n = 0 => e[2] # u.d)}}
      z5 == IF m = 0 \/ IsClosed(u) \/ n = 0 THEN {} ELSE
            {[pos |-> n, cls |-> 8, key |-> 0, t |-> IF y[1] = 1 THEN 0 ELSE m,
              sl |-> (IF y[1] = 1 THEN 1 ELSE -1) * (IF y[2] = Nx(T, u.d) THEN -1 ELSE 1)] :
              y \in {e \in EndCorners(v) : e[2] # u.d /\ TriRep(T, e[2]) = TriRep(T, u.d)}}
      \* v parallel to an edge (pushed into the triangle on its left)
      par == IF m > 0 THEN {} ELSE
             {[pos |-> IF u.w[i] = v.c THEN i - 1 ELSE i, cls |-> 1, key |-> 0, t |-> 0,
               sl |-> IF u.w[i] = v.c THEN 1 ELSE -1] : i \in {j \in 1..n : u.w[j] = v.c \/ u.w[j] = Rev(v.c)}}
      less(x, y) == \/ x.pos < y.pos
                    \/ x.pos = y.pos /\ x.cls < y.cls
                    \/ x.pos = y.pos /\ x.cls = y.cls /\ x.key < y.key
  IN SortSeq(SetToSeq(runs1 \cup runs2 \cup z1 \cup z2 \cup z3 \cup z4 \cup z5 \cup par), less)

(* Insert loops into a word: ins is a sequence of [pos, w] with nondecreasing pos. *)
InsertAll(w, ins) ==
  LET r == FoldLeft(LAMBDA acc, x : [p |-> x.pos, w |-> acc.w \o SubSeq(w, acc.p + 1, x.pos) \o x.w],
                    [p |-> 0, w |-> <<>>], ins)
  IN r.w \o SubSeq(w, r.p + 1, Len(w))

Rebuild(T, u, w) == IF IsClosed(u) THEN OrientedNF(T, [k |-> "c", w |-> w]) ELSE ArcNF(T, u.c, w, u.d)

(* The k-th power of the right Dehn twist about the closed curve v (given WithPositions). *)
DehnTwist(T, v, k, u0) ==
  IF u0.k = "0" THEN u0 ELSE
  LET u == AsPath(T, u0)
      cl == CrossList(T, u, v)
      loop(x) == LET l == IF x.t % Len(v.w) = 0 THEN v.w ELSE Rot(v.w, x.t + 1) IN
                 IF (x.sl = 1) = (k > 0) THEN RevWord(l) ELSE l
  IN IF cl = <<>> THEN u0
     ELSE Rebuild(T, u, InsertAll(u.w, TLCEval([i \in 1..Len(cl) |-> [pos |-> cl[i].pos, w |-> Repeat(loop(cl[i]), Abs(k))]])))

------------------------------------------------------------------------------
(* Words around a vertex, from corner c. *)
AcwLoop(T, c) == LET vs == VertexSeq(T, c) IN TLCEval([i \in 1..Len(vs) |-> Pv(T, vs[i])])
RECURSIVE CwTo(_, _, _, _)
CwTo(T, c, d, acc) == IF c = d THEN acc ELSE CwTo(T, TurnBack(T, c), d, Append(acc, c))
RECURSIVE AcwTo(_, _, _, _)
AcwTo(T, c, d, acc) == IF c = d THEN acc ELSE AcwTo(T, Turn(T, c), d, Append(acc, Pv(T, c)))

(* Position of an arc's start within its corner: 1 right boundary, -1 left boundary, 0 inside. *)
StartRank(T, u) == IF u.w # <<>> THEN 0 ELSE IF u.d = Nx(T, u.c) THEN 1 ELSE -1
(* For two paths from the same corner: is u to the left of v?  (they are not equal) *)
RECURSIVE LeftOf(_, _, _, _)
LeftOf(T, u, v, i) ==
  IF i = 0 THEN (IF StartRank(T, u) # StartRank(T, v) THEN StartRank(T, u) < StartRank(T, v) ELSE LeftOf(T, u, v, 1))
  ELSE LET n == RunLen(u, 1, v, 1, 1) IN FwdRank(T, u, n) < FwdRank(T, v, n)

SamePath(u, v) == u.c = v.c /\ u.w = v.w /\ u.d = v.d

(* If u starts at the start vertex of a: the word replacing u's beginning under a half twist
   (right: the ends rotate anticlockwise).  u # a. *)
StartFix(T, a, u, right) ==
  LET full == u.c = a.c /\ (LeftOf(T, u, a, 0) = right)
      rot == IF u.c = a.c
             THEN (IF full THEN (IF right THEN RevWord(AcwLoop(T, a.c)) ELSE AcwLoop(T, a.c)) ELSE <<>>)
             ELSE IF right THEN CwTo(T, a.c, u.c, <<>>) ELSE AcwTo(T, a.c, u.c, <<>>)
  IN [c |-> a.d, w |-> RevWord(a.w) \o rot]

(* One right (or left) half twist about the arc v, applied to the oriented component u0. *)
HalfTwist1(T, v, right, u0) ==
  IF u0.k = "0" THEN u0 ELSE
  LET u == AsPath(T, u0)
      a == [k |-> "a", c |-> v.c, w |-> v.w, d |-> v.d]
      ar == RevComp(a)
      vr == VRep(T)
      ur == RevComp(u)
      asA == ~IsClosed(u) /\ (SamePath(u, a) \/ OrientedNF(T, u) = OrientedNF(T, a))
      asAr == ~IsClosed(u) /\ (SamePath(u, ar) \/ OrientedNF(T, u) = OrientedNF(T, ar))
      cl == CrossList(T, u, v)
      cq(t) == LET p == SubSeq(v.w, t + 1, Len(v.w)) IN p \o AcwLoop(T, v.d) \o RevWord(p)
      cp(t) == LET p == RevWord(SubSeq(v.w, 1, t)) IN p \o AcwLoop(T, v.c) \o RevWord(p)
      g(x) == IF right THEN (IF x.sl = -1 THEN cq(x.t) \o RevWord(cp(x.t)) ELSE cp(x.t) \o RevWord(cq(x.t)))
              ELSE (IF x.sl = -1 THEN RevWord(cp(x.t)) \o cq(x.t) ELSE RevWord(cq(x.t)) \o cp(x.t))
      mid == InsertAll(u.w, TLCEval([i \in 1..Len(cl) |-> [pos |-> cl[i].pos, w |-> g(cl[i])]]))
      none == [c |-> 0, w |-> <<>>]
      st == IF vr[u.c] = vr[a.c] THEN StartFix(T, a, u, right)
            ELSE IF vr[u.c] = vr[ar.c] THEN StartFix(T, ar, u, right) ELSE [c |-> u.c, w |-> <<>>]
      en == IF vr[u.d] = vr[a.c] THEN StartFix(T, a, ur, right)
            ELSE IF vr[u.d] = vr[ar.c] THEN StartFix(T, ar, ur, right) ELSE [c |-> u.d, w |-> <<>>]
  IN IF IsClosed(u) THEN (IF cl = <<>> THEN u0 ELSE OrientedNF(T, [k |-> "c", w |-> mid]))
     ELSE IF asA THEN OrientedNF(T, ar)
     ELSE IF asAr THEN OrientedNF(T, a)
     ELSE ArcNF(T, st.c, st.w \o mid \o RevWord(en.w), en.c)

(* The curve bounding a neighbourhood of an arc with distinct ends: from just before the far corner, round it, back, and round the near one. *)
ArcBoundary(T, v0) == LET v == AsPath(T, v0) IN
  NF(T, [k |-> "c", w |-> v.w \o AcwLoop(T, v.d) \o RevWord(v.w) \o AcwLoop(T, v.c)])

RECURSIVE HalfTwistIter(_, _, _, _, _)
HalfTwistIter(T, v, right, n, u) == IF n = 0 THEN u ELSE HalfTwistIter(T, v, right, n - 1, HalfTwist1(T, v, right, u))
HalfTwistPow(T, v, k, u) == HalfTwistIter(T, v, k > 0, Abs(k), u)
=============================================================================
