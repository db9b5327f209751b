------------------------------ MODULE CvWords ------------------------------
(***************************************************************************)
(* Curves and arcs as reduced edge-crossing words.                         *)
(*                                                                         *)
(* A path's letter l means "leave the triangle on the left of l across l". *)
(* Components are records                                                  *)
(*   [k |-> "c", w]       closed curve, w a cyclic word                     *)
(*   [k |-> "a", c, w, d] arc from corner c, word w # <<>>, to corner d     *)
(*   [k |-> "p", e]       arc parallel to the oriented edge e               *)
(* Two components are isotopic iff their normal forms agree (the universal *)
(* cover of the dual ribbon graph is a tree).                              *)
(***************************************************************************)
EXTENDS CvBase

W(w, l) == w[Idx(l) + 1]          \* weight of the edge of l (w is a sequence of length z)
PW(w, l) == Pos(w[Idx(l) + 1])

------------------------------------------------------------------------------
(* Validity of coordinates: in each triangle the (positive parts of) weights are  *)
(* realised by corner arcs and arcs running out of one vertex.                    *)
TriOK(A, B, C) ==
  \/ A > B + C \/ B > A + C \/ C > A + B      \* terminal segments
  \/ (A + B + C) % 2 = 0
(* an integral lamination: consistent triangles and a negative edge meets nothing. *)
ValidWeights(T, w) ==
  /\ Len(w) = T.z
  /\ \A l \in Labels(T.z) : TriOK(PW(w, l), PW(w, Nx(T, l)), PW(w, Pv(T, l)))

(* Number of normal segments of side l's triangle cutting the corner at the tail of l
   (i.e. between Pv(l) and l), and number running from that corner to the far side. *)
CornerArcs(T, w, l) ==
  LET a == PW(w, l) b == PW(w, Nx(T, l)) c == PW(w, Pv(T, l)) IN
  IF b > a + c THEN 0
  ELSE IF a > b + c THEN c
  ELSE IF c > a + b THEN a
  ELSE (a + c - b) \div 2
Terminals(T, w, l) ==                 \* out of the corner at the tail of l, across Nx(l)
  Pos(PW(w, Nx(T, l)) - PW(w, l) - PW(w, Pv(T, l)))

------------------------------------------------------------------------------
(* Tracing.  A strand about to enter the triangle left of l at position p (counted
   from the tail of l).  StepIn returns <<m, q>>: it leaves that triangle across m at
   position q (from the tail of m); or <<>> when it ends at the corner Pv(l).      *)
StepIn(T, w, ca, l, p) ==
  LET a == PW(w, l) n == ca[l] m == ca[Nx(T, l)] IN
  IF p < n THEN <<Pv(T, l), PW(w, Pv(T, l)) - 1 - p>>
  ELSE IF p >= a - m THEN <<Nx(T, l), a - 1 - p>>
  ELSE <<>>

(* After leaving across m at position q we are about to enter the triangle left of ~m. *)
CrossPos(w, m, q) == PW(w, m) - 1 - q

RECURSIVE TraceFrom(_, _, _, _, _, _, _)
(* Follow until the strand ends or returns to (l0,p0) -- the strand about to enter l0 at p0. *)
TraceFrom(T, w, ca, l, p, l0, acc) ==
  LET s == StepIn(T, w, ca, l, p) IN
  IF s = <<>> THEN [end |-> TRUE, path |-> acc, c |-> Pv(T, l)]
  ELSE LET l2 == Rev(s[1]) p2 == CrossPos(w, s[1], s[2]) IN
       IF l2 = l0[1] /\ p2 = l0[2] THEN [end |-> FALSE, path |-> Append(acc, s), c |-> 0]
       ELSE TraceFrom(T, w, ca, l2, p2, l0, Append(acc, s))

(* Follow the strand that leaves across m0 at position q0, for at most n steps, until it next crosses m0 the same way.   *)
(* opp collects where the trace crossed back over m0, numbered from the tail of m0.                                      *)
RECURSIVE FirstReturn(_, _, _, _, _, _, _)
FirstReturn(T, w, ca, m0, n, acc, opp) ==
  LET lst == Last(acc) s == StepIn(T, w, ca, Rev(lst[1]), CrossPos(w, lst[1], lst[2])) IN
  IF n = 0 \/ s = <<>> THEN [ok |-> FALSE, path |-> acc, opp |-> opp, q |-> 0]
  ELSE IF s[1] = m0 THEN [ok |-> TRUE, path |-> acc, opp |-> opp, q |-> s[2]]
  ELSE FirstReturn(T, w, ca, m0, n - 1, Append(acc, s), IF s[1] = Rev(m0) THEN opp \cup {CrossPos(w, s[1], s[2])} ELSE opp)
(* Closing the trace up along m0 makes a simple curve exactly when the trace does not cross m0 in between. *)
ClosedUp(T, w, m0, q0, n) ==
  LET r == FirstReturn(T, w, TLCEval([l \in Labels(T.z) |-> CornerArcs(T, w, l)]), m0, n, <<<<m0, q0>>>>, {})
      lo == Min2(q0, r.q) hi == Max2(q0, r.q) IN
  [ok |-> r.ok /\ ~(\E x \in r.opp : lo < x /\ x < hi), w |-> [i \in 1..Len(r.path) |-> r.path[i][1]]]

Letters(path) == TLCEval([i \in 1..Len(path) |-> path[i][1]])
(* The undirected crossing points used by a path: <<index, position from the tail of the positive label>> *)
Points(w, path) == {IF path[i][1] >= 0 THEN <<path[i][1], path[i][2]>>
                    ELSE <<Rev(path[i][1]), PW(w, path[i][1]) - 1 - path[i][2]>> : i \in 1..Len(path)}

RECURSIVE TraceArcs(_, _, _, _, _)
TraceArcs(T, w, ca, todo, acc) ==       \* todo: set of <<corner, position on far side>>
  IF todo = {} THEN acc
  ELSE LET t == CHOOSE x \in todo : TRUE
           m == Nx(T, t[1]) q == t[2]
           first == <<m, q>>
           r == TraceFrom(T, w, ca, Rev(m), CrossPos(w, m, q), <<0, -1>>, <<first>>)
           lst == Last(r.path)
           back == <<r.c, CrossPos(w, lst[1], lst[2])>>    \* the far end, as a start
       IN TraceArcs(T, w, ca, todo \ {t, back},
            [seen |-> acc.seen \cup Points(w, r.path),
             out |-> Append(acc.out, [k |-> "a", c |-> t[1], w |-> Letters(r.path), d |-> r.c])])

RECURSIVE TraceLoops(_, _, _, _, _)
TraceLoops(T, w, ca, todo, out) ==      \* todo: set of unvisited crossing points
  IF todo = {} THEN out
  ELSE LET t == CHOOSE x \in todo : TRUE
           l == Rev(t[1]) p == CrossPos(w, t[1], t[2])
           r == TraceFrom(T, w, ca, l, p, <<l, p>>, <<>>)
       IN TraceLoops(T, w, ca, todo \ Points(w, r.path), Append(out, [k |-> "c", w |-> Letters(r.path)]))

------------------------------------------------------------------------------
(* Normal forms *)
RevWord(w) == TLCEval([i \in 1..Len(w) |-> Rev(w[Len(w) + 1 - i])])

RECURSIVE Cancels(_, _, _)
Cancels(u, v, n) == IF n < Len(u) /\ n < Len(v) /\ u[Len(u) - n] = Rev(v[n + 1]) THEN Cancels(u, v, n + 1) ELSE n
RECURSIVE FreeReduce(_)
FreeReduce(w) ==
  IF Len(w) <= 1 THEN w ELSE
  LET h == Len(w) \div 2
      u == FreeReduce(SubSeq(w, 1, h)) v == FreeReduce(SubSeq(w, h + 1, Len(w)))
      n == Cancels(u, v, 0)
  IN SubSeq(u, 1, Len(u) - n) \o SubSeq(v, n + 1, Len(v))
RECURSIVE CycTrim(_)
CycTrim(w) == IF Len(w) >= 2 /\ w[1] = Rev(w[Len(w)]) THEN CycTrim(SubSeq(w, 2, Len(w) - 1)) ELSE w
CycReduce(w) == CycTrim(FreeReduce(w))

RECURSIVE LexLess(_, _, _)
LexLess(u, v, i) == IF i > Len(u) THEN FALSE
                    ELSE IF u[i] # v[i] THEN u[i] < v[i] ELSE LexLess(u, v, i + 1)
(* least rotation: refine the set of candidate starting positions letter by letter *)
RECURSIVE LeastStart(_, _, _)
LeastStart(w, cs, j) ==
  IF Cardinality(cs) = 1 \/ j = Len(w) THEN CHOOSE i \in cs : TRUE
  ELSE LET at(i) == w[((i + j - 1) % Len(w)) + 1]
           m == Min({at(i) : i \in cs})
       IN LeastStart(w, {i \in cs : at(i) = m}, j + 1)
CycMin(w) == IF w = <<>> THEN w ELSE Rot(w, LeastStart(w, 1..Len(w), 0))

(* Slide the ends of an arc so that it starts and finishes by crossing opposite sides. *)
RECURSIVE TightStart(_, _, _)
TightStart(T, c, w) ==
  IF w = <<>> THEN <<c, w>>
  ELSE IF w[1] = c THEN TightStart(T, Nx(T, Rev(c)), Tail(w))
  ELSE IF w[1] = Pv(T, c) THEN TightStart(T, Rev(Pv(T, c)), Tail(w))
  ELSE <<c, w>>

(* An oriented arc in normal form, from any representative. *)
ArcNF(T, c, w, d) ==
  LET s == TightStart(T, c, FreeReduce(w))
      e == TightStart(T, d, RevWord(s[2]))
  IN IF e[2] # <<>> THEN [k |-> "a", c |-> s[1], w |-> RevWord(e[2]), d |-> e[1]]
     ELSE IF e[1] = Nx(T, s[1]) THEN [k |-> "p", e |-> s[1]]
     ELSE IF s[1] = Nx(T, e[1]) THEN [k |-> "p", e |-> Rev(e[1])]
     ELSE [k |-> "0"]                                   \* trivial arc
(* The opposite view of a normal form: parallel arcs as a path with explicit corners. *)
AsPath(T, x) == IF x.k = "p" THEN [k |-> "a", c |-> x.e, w |-> <<>>, d |-> Nx(T, x.e)] ELSE x

OrientedNF(T, x) ==
  CASE x.k = "c" -> LET r == CycReduce(x.w) IN IF r = <<>> THEN [k |-> "0"] ELSE [k |-> "c", w |-> CycMin(r)]
    [] x.k = "a" -> ArcNF(T, x.c, x.w, x.d)
    [] OTHER -> x
RevComp(x) ==
  CASE x.k = "c" -> [k |-> "c", w |-> RevWord(x.w)]
    [] x.k = "a" -> [k |-> "a", c |-> x.d, w |-> RevWord(x.w), d |-> x.c]
    [] x.k = "p" -> [k |-> "p", e |-> Rev(x.e)]
    [] OTHER -> x
(* Unoriented normal form. *)
NF(T, x) ==
  LET u == OrientedNF(T, x) v == OrientedNF(T, RevComp(u)) IN
  CASE u.k = "c" -> IF LexLess(v.w, u.w, 1) THEN v ELSE u
    [] u.k = "a" -> IF u.w = v.w THEN u ELSE IF LexLess(v.w, u.w, 1) THEN v ELSE u
    [] u.k = "p" -> [k |-> "p", e |-> Idx(u.e)]
    [] OTHER -> u

------------------------------------------------------------------------------
(* Coordinates of a component; of a multiset of components (a sequence of [x, n]). *)
CompWeights(z, x) ==
  IF x.k = "p" THEN TLCEval([i \in 1..z |-> IF i = Idx(x.e) + 1 THEN -1 ELSE 0])
  ELSE IF x.k = "0" THEN TLCEval([i \in 1..z |-> 0])
  ELSE FoldLeft(LAMBDA f, l : [f EXCEPT ![Idx(l) + 1] = @ + 1], TLCEval([i \in 1..z |-> 0]), x.w)
AddW(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
ScaleW(n, u) == TLCEval([i \in 1..Len(u) |-> n * u[i]])
ZeroW(z) == TLCEval([i \in 1..z |-> 0])
MultiWeights(z, ms) == FoldLeft(LAMBDA acc, m : AddW(acc, ScaleW(m.n, CompWeights(z, m.x))), ZeroW(z), ms)

(* Group a sequence of normal forms into a sequence of [x, n]. *)
Group(xs) ==
  LET S == ToSet(xs) IN
  SetToSeq({[x |-> x, n |-> Cardinality({i \in 1..Len(xs) : xs[i] = x})] : x \in S})

(* The component decomposition of an integral lamination: the denotation of a coordinate vector. *)
CornerFcn(T, w) == TLCEval([l \in Labels(T.z) |-> CornerArcs(T, w, l)])
Decompose(T, w) ==
  LET ca == CornerFcn(T, w)
      starts == UNION {{<<l, ca[Nx(T, l)] + i>> : i \in 0..(Terminals(T, w, l) - 1)} : l \in Labels(T.z)}
      arcs == TraceArcs(T, w, ca, starts, [seen |-> {}, out |-> <<>>])
      pts == UNION {{<<i, p>> : p \in 0..(PW(w, i) - 1)} : i \in 0..(T.z - 1)}
      loops == TraceLoops(T, w, ca, pts \ arcs.seen, <<>>)
      xs == TLCEval([i \in 1..(Len(arcs.out) + Len(loops)) |->
               IF i <= Len(arcs.out) THEN NF(T, arcs.out[i]) ELSE NF(T, loops[i - Len(arcs.out)])])
      par == SetToSeq({[x |-> [k |-> "p", e |-> i], n |-> -w[i + 1]] : i \in {j \in 0..(T.z - 1) : w[j + 1] < 0}})
  IN Group(xs) \o par

IsArcKind(x) == x.k = "a" \/ x.k = "p"
IsCurveKind(x) == x.k = "c"

(* A curve is peripheral iff it follows a vertex: all letters are left turns or all right turns. *)
PeripheralWord(T, w) ==
  LET n == Len(w) nxt(i) == w[(i % n) + 1] IN
  \/ \A i \in 1..n : nxt(i) = Pv(T, Rev(w[i]))
  \/ \A i \in 1..n : nxt(i) = Nx(T, Rev(w[i]))
IsPeripheral(T, x) == x.k = "c" /\ PeripheralWord(T, x.w)
(* The (unoriented) peripheral curve around the tail of l: crosses every edge out of it. *)
VertexCurve(T, l) == LET vs == VertexSeq(T, l) IN NF(T, [k |-> "c", w |-> TLCEval([i \in 1..Len(vs) |-> Rev(vs[i])])])

------------------------------------------------------------------------------
(* Moving words through a flip of e in T (T2 = FlipT(T, e)). *)
FlipComp(T, e, T2, x0) ==
  LET x == AsPath(T, x0)
      q == Square(T, e)
      a == q[1] b == q[2] c == q[3] d == q[4] i == Idx(e) j == Rev(i)
      sideA == {a, d} sideB == {b, c}          \* sides of the new triangles (i d a) and (j b c)
      quad == sideA \cup sideB
      cmap(k) == IF k = e THEN c ELSE IF k = Rev(e) THEN a ELSE k   \* corners of T -> corners of T2
      inA(k) == k \in sideA
      keep == SelectSeq(x.w, LAMBDA l : l # e /\ l # Rev(e))
      n == Len(keep)
      (* what to insert between being at side/corner u and leaving by / ending at v, both inside the square *)
      ins(u, v) == IF u \in quad /\ v \in quad THEN
                     (IF inA(u) /\ ~inA(v) THEN <<i>> ELSE IF ~inA(u) /\ inA(v) THEN <<j>> ELSE <<>>)
                   ELSE <<>>
  IN IF x.k = "c" THEN
       OrientedNF(T2, [k |-> "c", w |-> FoldLeft(LAMBDA acc, t : acc \o <<keep[t]>> \o ins(Rev(keep[t]), keep[(t % n) + 1]),
                                            <<>>, TLCEval([t \in 1..n |-> t]))])
     ELSE LET c2 == cmap(x.c) d2 == cmap(x.d) IN
       IF n = 0 THEN ArcNF(T2, c2, ins(c2, d2), d2)
       ELSE ArcNF(T2, c2, ins(c2, keep[1]) \o
              FoldLeft(LAMBDA acc, t : acc \o <<keep[t]>> \o
                         (IF t = n THEN ins(Rev(keep[n]), d2) ELSE ins(Rev(keep[t]), keep[t + 1])),
                       <<>>, TLCEval([t \in 1..n |-> t])), d2)

RelabelComp(p, x) ==
  CASE x.k = "c" -> [k |-> "c", w |-> CycMin(TLCEval([i \in 1..Len(x.w) |-> p[x.w[i]]]))]
    [] x.k = "a" -> [k |-> "a", c |-> p[x.c], w |-> TLCEval([i \in 1..Len(x.w) |-> p[x.w[i]]]), d |-> p[x.d]]
    [] x.k = "p" -> [k |-> "p", e |-> p[x.e]]
    [] OTHER -> x

(* The flip rule on coordinates: new weight of the flipped edge, counting directly the normal
   segments of the square.  Derived from the segment counts, not from a case table:
     segments across e pair the corner arcs of the two triangles by position. *)
FlipW(T, e, w) ==
  LET q == Square(T, e)
      A == PW(w, q[1]) B == PW(w, q[2]) C == PW(w, q[3]) D == PW(w, q[4]) E == PW(w, e)
      N == Pos(-W(w, e))                       \* copies parallel to e
      \* positions on e from its tail P (0..E-1): left triangle, by where they go:
      \*   first lb go to b (corner P), last la go to a (corner Q), middle end at R.
      lb == CornerArcs(T, w, e)                \* corner at tail of e in the left triangle: between b and e
      la == CornerArcs(T, w, q[1])             \* between e and a
      rc == CornerArcs(T, w, q[3])             \* between ~e and c (at P)
      rd == CornerArcs(T, w, Rev(e))           \* between d and ~e (at Q)
      rab == CornerArcs(T, w, q[2])            \* corner R: between a and b
      rcd == CornerArcs(T, w, q[4])            \* corner S: between c and d
      tP == Terminals(T, w, e) tQ == Terminals(T, w, q[1])      \* P -> a,  Q -> b
      tQ2 == Terminals(T, w, Rev(e)) tP2 == Terminals(T, w, q[3])  \* Q -> c,  P -> d
      \* straight across e, from b to d : positions in [0,lb) on the left and >= E - rd on the right
      bd == Pos(lb - (E - rd))
      ac == Pos(la - (E - rc))
      \* end at R (positions lb..E-la-1) and go to c (pos < rc) / to d (pos >= E-rd) / to S (rest)
      Rmid == E - la - lb
      Smid == E - rc - rd
      RS == Pos(Min2(E - la, E - rd) - Max2(lb, rc))    \* from R straight to S: parallel to the new edge
      \* new edge joins S to R.  It crosses: bd and ac straight segments; corner arcs at R and S;
      \* the N arcs parallel to e; terminals out of P, Q.
      new == bd + ac + rab + rcd + N + tP + tQ + tQ2 + tP2
  IN [w EXCEPT ![Idx(e) + 1] = IF new > 0 THEN new ELSE -RS]
=============================================================================
