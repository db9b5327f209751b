------------------------------- MODULE CvHom -------------------------------
(***************************************************************************)
(* First homology relative to the punctures: chains on edges modulo the    *)
(* boundaries of triangles.  A chain is a sequence of z integers.          *)
(***************************************************************************)
EXTENDS CvEnc

Coef(v, l) == IF l >= 0 THEN v[l + 1] ELSE -v[-l]
ZeroC(z) == TLCEval([i \in 1..z |-> 0])
AddTo(v, l, n) == IF l >= 0 THEN [v EXCEPT ![l + 1] = @ + n] ELSE [v EXCEPT ![-l] = @ - n]
SubC(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] - v[i]])

(* v = sum of x[t] * boundary(t) for some x: triangles -> Int? *)
RECURSIVE Potential(_, _, _, _)
Potential(T, v, front, x) ==      \* front: set of labels whose triangle has a value
  IF front = {} THEN x
  ELSE LET l == CHOOSE y \in front : TRUE
           here == x[TriRep(T, l)]
           there == TriRep(T, Rev(l))
       IN IF there \in DOMAIN x THEN Potential(T, v, front \ {l}, x)
          ELSE Potential(T, v, (front \ {l}) \cup TriOf(T, Rev(l)), x @@ (there :> (here - Coef(v, l))))
IsBoundaryOn(T, v, C) ==
  LET r == Min(C)
      x == Potential(T, v, TriOf(T, r), TriRep(T, r) :> 0)
  IN \A l \in C : x[TriRep(T, l)] - x[TriRep(T, Rev(l))] = Coef(v, l)
IsBoundary(T, v) == \A C \in Components(T) : IsBoundaryOn(T, v, C)
Homologous(T, u, v) == IsBoundary(T, SubC(u, v))
HomRank(T) == T.z - (2 * T.z) \div 3 + Cardinality(Components(T))

(* The chain to the left of an oriented path. *)
TurnChain(T, v, k, m) ==     \* in the triangle of k at tail(k), leaving across m
  IF m = Nx(T, k) THEN AddTo(v, Pv(T, k), -1) ELSE IF m = k THEN AddTo(v, k, 1) ELSE v
EndChain(T, v, k, d) ==      \* in the triangle of k at tail(k), finishing at corner d
  IF d = Nx(T, k) THEN AddTo(v, k, 1) ELSE IF d = Pv(T, k) THEN AddTo(v, Pv(T, k), -1) ELSE v
CompChain(T, x0) ==
  IF x0.k = "0" THEN ZeroC(T.z)
  ELSE IF x0.k = "p" THEN AddTo(ZeroC(T.z), x0.e, 1)
  ELSE IF x0.k = "c" THEN
    FoldLeft(LAMBDA acc, i : TurnChain(T, acc, Rev(x0.w[i]), x0.w[(i % Len(x0.w)) + 1]), ZeroC(T.z), TLCEval([i \in 1..Len(x0.w) |-> i]))
  ELSE LET n == Len(x0.w)
           mid == FoldLeft(LAMBDA acc, i : TurnChain(T, acc, IF i = 1 THEN x0.c ELSE Rev(x0.w[i - 1]), x0.w[i]),
                           ZeroC(T.z), TLCEval([i \in 1..n |-> i]))
       IN EndChain(T, mid, IF n = 0 THEN x0.c ELSE Rev(x0.w[n]), x0.d)

ScaleC(n, v) == TLCEval([i \in 1..Len(v) |-> n * v[i]])
(* The induced map on chains, through the images of the edges. *)
EdgeChains(T, mv) == LET im == EncImages(T, mv) S == EncTgt(T, mv) IN TLCEval([i \in 1..T.z |-> CompChain(S, im[i])])
ChainImage(cols, v) == FoldLeft(LAMBDA acc, i : AddW(acc, ScaleC(v[i], cols[i])), ZeroC(Len(v)), TLCEval([i \in 1..Len(v) |-> i]))
(* Linear combination of a sequence of chains *)
LinComb(z, cs, vs) == FoldLeft(LAMBDA acc, i : AddW(acc, ScaleC(cs[i], vs[i])), ZeroC(z), TLCEval([i \in 1..Len(vs) |-> i]))
=============================================================================
