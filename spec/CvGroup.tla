------------------------------ MODULE CvGroup ------------------------------
(***************************************************************************)
(* Orders, puncture permutations, finite subgroups and their quotients.    *)
(***************************************************************************)
EXTENDS CvTopo

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
LCM(a, b) == (a \div GCD(a, b)) * b

(* The component to which a map carries component C, and the time until C returns. *)
RECURSIVE CompImage(_, _)
CompImage(mv, C) ==
  IF mv = <<>> THEN C
  ELSE CompImage(Tail(mv), IF Head(mv).op = "r" THEN {Head(mv).p[l] : l \in C} ELSE C)
RECURSIVE ReturnFrom(_, _, _, _)
ReturnFrom(mv, C, X, m) == IF X = C THEN m ELSE ReturnFrom(mv, C, CompImage(mv, X), m + 1)
ReturnTime(mv, C) == ReturnFrom(mv, C, CompImage(mv, C), 1)

(* A bound on the orders of the periodic classes of a connected surface. *)
OrderBound(g, p) == IF g = 0 THEN p ELSE IF g = 1 THEN Max2(6, p) ELSE 4 * g + 2

(* The order of f restricted to the orbit of C: iterate the arcs of the triangulation of C until they
   come back as a set; then f^k is an isometry there, whose order is that of a permutation of labels. *)
CompArcsW(z, C) == TLCEval([i \in 1..z |-> IF (i - 1) \in C THEN -1 ELSE 0])
RECURSIVE BackAt(_, _, _, _, _, _)
BackAt(T, mv, a, w, k, bound) ==     \* w = image of a under f^k; the least k with image a, 0 if none
  IF k > 0 /\ w = a THEN k
  ELSE IF k = bound THEN 0
  ELSE BackAt(T, mv, a, EncW(T, mv, w), k + 1, bound)
RECURSIVE IterComps(_, _, _, _)
IterComps(T, mv, k, xs) == IF k = 0 THEN xs ELSE IterComps(T, mv, k - 1, EncComps(T, mv, xs))
RECURSIVE CycleOrder(_, _, _, _)
CycleOrder(f, x, y, n) == IF y = x THEN n ELSE CycleOrder(f, x, f[y], n + 1)
FcnOrder(f) == FoldSet(LAMBDA x, acc : LCM(acc, CycleOrder(f, x, f[x], 1)), 1, DOMAIN f)
OrbitOrder(T, mv, C) ==
  LET m == ReturnTime(mv, C)
      a == CompArcsW(T.z, C)
      k == BackAt(T, mv, a, a, 0, m * OrderBound(CompGenus(T, C), CompPunctures(T, C)))
  IN IF k = 0 THEN 0
     ELSE LET es == SetToSeq({l \in C : l >= 0})
              im == IterComps(T, mv, k, TLCEval([i \in 1..Len(es) |-> [k |-> "p", e |-> es[i]]]))
              f == TLCEval([l \in C |-> IF l >= 0 THEN im[CHOOSE i \in 1..Len(es) : es[i] = l].e
                                        ELSE Rev(im[CHOOSE i \in 1..Len(es) : es[i] = Rev(l)].e)])
          IN k * FcnOrder(f)
OrderOf(T, mv) ==
  LET os == {OrbitOrder(T, mv, C) : C \in Components(T)} IN
  IF 0 \in os THEN 0 ELSE FoldSet(LAMBDA x, acc : LCM(acc, x), 1, os)

(* The permutation induced on the punctures, numbered by the given list of representatives of the vertices. *)
VertexImages(T, mv, reps) ==
  LET U == EncTgt(T, mv) im == EncImages(T, mv) vu == VRep(U)
      tail(l) == IF l >= 0 THEN vu[AsPath(U, im[l + 1]).c] ELSE vu[AsPath(U, im[-l]).d]
  IN TLCEval([i \in 1..Len(reps) |-> tail(reps[i])])

------------------------------------------------------------------------------
(* Finite groups, by their action on the darts of an invariant polygonalisation.  *)
(* A dart is kept as its oriented normal form.                                    *)
Skeleton(T, pw) ==
  LET D == Decompose(T, pw)
      rb == Ribbon(T, ArcsOf(D))
      nf == TLCEval([i \in 1..Len(rb.d) |-> OrientedNF(T, ArcNF(T, rb.d[i].c, rb.d[i].w, rb.d[i].d))])
      comps == Components(T)
  IN [rb |-> rb, nf |-> nf, comp |-> TLCEval([i \in 1..Len(rb.d) |-> CHOOSE C \in comps : rb.d[i].c \in C])]
(* the permutation of the darts; the polygonalisation must be invariant *)
Invariant(T, mv, pw) == EncW(T, mv, pw) = pw
DartAction(T, sk, mv) ==
  LET n == Len(sk.nf) \div 2
      im == EncComps(T, mv, TLCEval([i \in 1..n |-> sk.nf[2 * i - 1]]))
      to(i) == CHOOSE j \in 1..Len(sk.nf) : sk.nf[j] = im[i]
  IN TLCEval([i \in 1..(2 * n) |-> IF i % 2 = 1 THEN to((i + 1) \div 2) ELSE Twin(to(i \div 2))])
PermOrder(f) == FcnOrder(f)
ComposeF(f, g) == TLCEval([i \in DOMAIN g |-> f[g[i]]])          \* g first
IdF(f) == TLCEval([i \in DOMAIN f |-> i])
RECURSIVE PowF(_, _)
PowF(f, k) == IF k = 0 THEN IdF(f) ELSE ComposeF(f, PowF(f, k - 1))
RECURSIVE Closure(_, _, _)
Closure(gens, front, seen) ==
  IF front = {} THEN seen
  ELSE LET nw == {ComposeF(g, x) : g \in gens, x \in front} \ seen IN Closure(gens, nw, seen \cup nw)
Generated(gens) == LET e == IdF(CHOOSE g \in gens : TRUE) IN Closure(gens, {e}, {e})

(* The signature: for each orbit of components the Euler characteristic of the quotient times the order of the group, the
   number of components in the orbit and its cone points, each with multiplicity, as bags (sets of <<x, count>>).
   H is a sequence of dart permutations, the elements of the group, in the order of their names. *)
RevCycle(c) == TLCEval([i \in 1..Len(c) |-> c[Len(c) + 1 - i]])
Bag(s) == {<<s[i], Cardinality({j \in 1..Len(s) : s[j] = s[i]})>> : i \in 1..Len(s)}
OrbiSignature(T, sk, H) ==
  LET n == Len(H) N == Len(sk.nf)
      orb(i) == {H[k][i] : k \in 1..n}
      comps == Components(T)
      start(C) == CHOOSE i \in 1..N : sk.comp[i] = C
      corb(C) == {sk.comp[j] : j \in orb(start(C))}
      vcycles == FacesOf(sk.rb.cw, 1..N)                      \* clockwise about each vertex
      places == TLCEval([i \in 1..Len(vcycles) |-> <<1, RevCycle(vcycles[i])>>])
                \o TLCEval([i \in 1..(N \div 2) |-> <<2, <<2 * i - 1, 2 * i>>>>])
                \o TLCEval([i \in 1..Len(sk.rb.faces) |-> <<3, sk.rb.faces[i]>>])
      cone(x) ==
        LET c == x[2] s == c[1] o == orb(s)
            hits == {j \in 1..Len(c) : c[j] \in o}              \* position 1 is always a hit
            nxt == IF hits = {1} THEN s ELSE c[Min(hits \ {1})]
            same == {i \in 1..Len(places) : places[i][1] = x[1] /\ sk.comp[places[i][2][1]] = sk.comp[s] /\ ToSet(places[i][2]) \cap o # {}}
        IN [p |-> x[1] = 1, c |-> Cardinality(hits), h |-> {k \in 1..n : H[k][s] = nxt}, n |-> Cardinality(same)]
      real(x) == x[1] = 1 \/ Cardinality({j \in 1..Len(x[2]) : x[2][j] \in orb(x[2][1])}) > 1
      \* one place from each orbit, within component C
      firsts(C) == {i \in 1..Len(places) : sk.comp[places[i][2][1]] = C /\ real(places[i])
                      /\ ~\E j \in 1..(i - 1) : places[j][1] = places[i][1] /\ sk.comp[places[j][2][1]] = C /\ ToSet(places[j][2]) \cap orb(places[i][2][1]) # {}}
      chosen == {C \in comps : \A D \in corb(C) : Min(C) <= Min(D)}
      fix(C) == Cardinality({k \in 1..n : H[k][start(C)] = start(C)})    \* elements acting trivially on C
      entry(C) == [chi |-> CompChi(C) * Cardinality(corb(C)) * fix(C), m |-> Cardinality(corb(C)),
                   cones |-> Bag(LET f == SetToSeq(firsts(C)) IN TLCEval([i \in 1..Len(f) |-> cone(places[f[i]])]))]
      cs == SetToSeq(chosen)
  IN Bag(TLCEval([i \in 1..Len(cs) |-> entry(cs[i])]))
(* A quotient is a sphere with three cone points or punctures iff it carries no essential curve:                       *)
(* chi = 2 - 2 genus - sum (1 - 1/c), scaled by the order n of the group.                                               *)
NumCones(o) == FoldSet(LAMBDA b, acc : acc + b[2], 0, o.cones)
ConeDefect(o, n) == FoldSet(LAMBDA b, acc : acc + b[2] * (IF b[1].p THEN n ELSE n - n \div b[1].c), 0, o.cones)
TriangleOrbifold(o, n) == NumCones(o) = 3 /\ o.chi = 2 * n - ConeDefect(o, n)
CyclicNames(f, n) == TLCEval([k \in 1..n |-> PowF(f, k - 1)])
=============================================================================
