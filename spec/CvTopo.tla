------------------------------- MODULE CvTopo -------------------------------
(***************************************************************************)
(* Neighbourhoods and complements of multiarcs and multicurves.            *)
(***************************************************************************)
EXTENDS CvHom

------------------------------------------------------------------------------
(* The ribbon graph of a multiarc: darts = oriented arcs (with explicit path). *)
DartsOf(T, arcs) ==          \* arcs: sequence of unoriented arc normal forms (distinct)
  TLCEval([i \in 1..(2 * Len(arcs)) |->
     LET x == OrientedNF(T, arcs[(i + 1) \div 2]) IN AsPath(T, IF i % 2 = 1 THEN x ELSE OrientedNF(T, RevComp(x)))])
Twin(i) == IF i % 2 = 1 THEN i + 1 ELSE i - 1

(* position of a corner in the anticlockwise sequence at its vertex, from the least label *)
CornerPos(T, vr, c) == LET s == VertexSeq(T, vr[c]) IN CHOOSE i \in 1..Len(s) : s[i] = c
(* strictly anticlockwise order of darts at a vertex, starting from its least label *)
DartBefore(T, vr, ds, i, j) ==
  LET u == ds[i] v == ds[j]
      p == CornerPos(T, vr, u.c) q == CornerPos(T, vr, v.c)
  IN p < q \/ (p = q /\ LeftOf(T, v, u, 0))
(* sequence of darts around the vertex of dart i, anticlockwise *)
DartOrder(T, vr, ds, v) ==
  SortSeq(SetToSeq({j \in 1..Len(ds) : vr[ds[j].c] = v}), LAMBDA a, b : DartBefore(T, vr, ds, a, b))
PrevIn(s, x) == LET i == CHOOSE k \in 1..Len(s) : s[k] = x IN IF i = 1 THEN s[Len(s)] ELSE s[i - 1]
Sigma(T, ds) ==       \* clockwise neighbour
  LET vr == VRep(T)
      vs == {vr[ds[i].c] : i \in 1..Len(ds)}
      ord == TLCEval([v \in vs |-> DartOrder(T, vr, ds, v)])
  IN TLCEval([i \in 1..Len(ds) |-> PrevIn(ord[vr[ds[i].c]], i)])
(* word clockwise about the vertex from the end of dart i to dart j (the clockwise neighbour of its twin) *)
CwWord(T, ds, i, j) ==
  LET u == RevComp(ds[i]) v == ds[j] IN
  IF u.c = v.c THEN (IF ~SamePath(u, v) /\ LeftOf(T, u, v, 0) THEN <<>> ELSE RevWord(AcwLoop(T, u.c)))
  ELSE CwTo(T, u.c, v.c, <<>>)
RECURSIVE FaceFrom(_, _, _)
FaceFrom(phi, i, acc) == IF phi[Last(acc)] = i THEN acc ELSE FaceFrom(phi, i, Append(acc, phi[Last(acc)]))
RECURSIVE FacesOf(_, _)
FacesOf(phi, todo) ==
  IF todo = {} THEN <<>>
  ELSE LET i == Min(todo) f == FaceFrom(phi, i, <<i>>) IN <<f>> \o FacesOf(phi, todo \ ToSet(f))
(* Ribbon graph: darts, clockwise neighbour, faces (walks along left sides) and the curve each face follows. *)
Ribbon(T, arcs) ==
  LET ds == DartsOf(T, arcs)
      sg == IF ds = <<>> THEN <<>> ELSE Sigma(T, ds)
      phi == TLCEval([i \in 1..Len(ds) |-> sg[Twin(i)]])
      fs == FacesOf(phi, 1..Len(ds))
      word(f) == FoldLeft(LAMBDA acc, i : acc \o ds[i].w \o CwWord(T, ds, i, phi[i]), <<>>, f)
  IN [d |-> ds, cw |-> sg, phi |-> phi, faces |-> fs,
      curves |-> TLCEval([i \in 1..Len(fs) |-> NF(T, [k |-> "c", w |-> word(fs[i])])])]

ArcsOf(D) == LET s == SelectSeq(D, LAMBDA m : IsArcKind(m.x)) IN TLCEval([i \in 1..Len(s) |-> s[i].x])
CurvesOf(D) == SelectSeq(D, LAMBDA m : IsCurveKind(m.x))

(* Boundary of a regular neighbourhood, as coordinates (trivial curves dropped). *)
ArcsBoundaryW(T, arcs) ==
  LET r == Ribbon(T, arcs) IN FoldLeft(LAMBDA acc, c : AddW(acc, CompWeights(T.z, c)), ZeroW(T.z), r.curves)
BoundaryW(T, D) ==
  AddW(ArcsBoundaryW(T, ArcsOf(D)), ScaleW(2, MultiWeights(T.z, CurvesOf(D))))

(* images of the boundaries of the edges *)
BoundaryImages(T, mv) == TLCEval([i \in 1..T.z |-> EncW(T, mv, BoundaryW(T, Decompose(T, EdgeArcWeights(T, i - 1))))])

VertexOn(T, arcs) == LET vr == VRep(T) IN
  UNION {LET a == AsPath(T, arcs[i]) IN {vr[a.c], vr[a.d]} : i \in 1..Len(arcs)}

IsS03(T, C) == CompPunctures(T, C) = 3 /\ Cardinality(C) = 6
Meets(T, D, C) == \E i \in 1..Len(D) : \E j \in 1..T.z : CompWeights(T.z, D[i].x)[j] # 0 /\ (j - 1) \in C
Filling(T, D) ==
  /\ \A i \in 1..Len(D) : IsCurveKind(D[i].x) => IsPeripheral(T, D[i].x)
  /\ \A C \in Components(T) : IsS03(T, C) \/ Meets(T, D, C)
  /\ \A i \in 1..Len(Ribbon(T, ArcsOf(D)).curves) :
        LET c == Ribbon(T, ArcsOf(D)).curves[i] IN c.k = "0" \/ IsPeripheral(T, c)
  /\ \A C \in Components(T) : IsS03(T, C) \/ \E i \in 1..Len(D) : IsArcKind(D[i].x) /\
        (\E j \in 1..T.z : CompWeights(T.z, D[i].x)[j] # 0 /\ (j - 1) \in C)
Polygonal(T, D) ==
  /\ \A i \in 1..Len(D) : IsArcKind(D[i].x)
  /\ \A C \in Components(T) : Meets(T, D, C)
  /\ VertexOn(T, ArcsOf(D)) = VertexReps(T)
  /\ LET r == Ribbon(T, ArcsOf(D)) IN \A i \in 1..Len(r.curves) : r.curves[i].k = "0"
IsTriangulationD(T, D) ==
  /\ Polygonal(T, D) /\ Len(D) = T.z /\ \A i \in 1..Len(D) : D[i].n = 1

------------------------------------------------------------------------------
(* Complementary regions of a lamination with all multiplicities one (w = coordinates).
   Node <<l, j>>: the j-th segment of the side l inside the triangle left of l.       *)
Nodes(T, w) == UNION {{<<l, j>> : j \in 0..PW(w, l)} : l \in Labels(T.z)}
Inside(T, w, ca, nd) ==          \* nodes adjacent inside the triangle
  LET l == nd[1] j == nd[2] a == Nx(T, l) b == Pv(T, l)
      A == PW(w, l) n == ca[l] m == ca[a]
      cen(k) == <<k, ca[k]>>
      t == A - n - m                                     \* terminals crossing l
      ta == PW(w, a) - ca[a] - ca[b]                      \* terminals crossing a, out of tail(l)
      tb == PW(w, b) - ca[b] - ca[l]                      \* terminals crossing b, out of tail(a)
  IN (IF j < n THEN {<<b, PW(w, b) - j>>} ELSE {})
     \cup (IF A - j < m THEN {<<a, A - j>>} ELSE {})
     \cup (IF j >= n /\ A - j >= m THEN
             IF t > 0 THEN (IF j = n THEN {cen(b)} ELSE {}) \cup (IF j = A - m THEN {cen(a)} ELSE {})
             ELSE IF ta > 0 THEN {<<a, ca[a]>>}
             ELSE IF tb > 0 THEN {<<b, PW(w, b) - ca[l]>>}
             ELSE {cen(a), cen(b)}
           ELSE {})
Across(T, w, nd) == IF W(w, nd[1]) < 0 THEN {} ELSE {<<Rev(nd[1]), PW(w, nd[1]) - nd[2]>>}

RECURSIVE Fill(_, _, _, _, _, _)
Fill(T, w, ca, both, front, seen) ==
  IF front = {} THEN seen
  ELSE LET nw == UNION {Inside(T, w, ca, nd) \cup (IF both THEN Across(T, w, nd) ELSE {}) : nd \in front} \ seen
       IN Fill(T, w, ca, both, nw, seen \cup nw)
RECURSIVE FillAll(_, _, _, _, _)
FillAll(T, w, ca, both, todo) ==
  IF todo = {} THEN {}
  ELSE LET n == CHOOSE x \in todo : TRUE c == Fill(T, w, ca, both, {n}, {n}) IN {c} \cup FillAll(T, w, ca, both, todo \ c)

(* The regions: records [nodes, chi]; chi = #pieces - #segments glued. *)
RegionsOf(T, w) ==
  LET ca == CornerFcn(T, w)
      all == Nodes(T, w)
      pieces == FillAll(T, w, ca, FALSE, all)
      regs == FillAll(T, w, ca, TRUE, all)
  IN {[nodes |-> r,
       chi |-> Cardinality({p \in pieces : p \subseteq r})
               - Cardinality({nd \in r : nd[1] >= 0 /\ W(w, nd[1]) >= 0})] : r \in regs}

(* The two sides of a component of the lamination with coordinates w, as nodes: <<left, right>>. *)
SidesOf(T, w, x) ==
  IF x.k = "p" THEN <<<<x.e, 0>>, <<Rev(x.e), 0>>>>
  ELSE \* find a crossing point of x: the first crossing whose traced strand has normal form x
    LET ca == CornerFcn(T, w)
        l == x.w[1]
        nfAt(p) ==
          LET i == Rev(l) q == CrossPos(w, l, p)
              r == TraceFrom(T, w, ca, i, q, <<i, q>>, <<>>)
          IN IF ~r.end THEN NF(T, [k |-> "c", w |-> Letters(r.path)])
             ELSE LET b == TraceFrom(T, w, ca, l, p, <<0, -1>>, <<>>) IN
                  [k |-> "a", c |-> b.c, w |-> RevWord(Letters(b.path)) \o <<l>> \o Letters(r.path), d |-> r.c]
        p == CHOOSE q \in 0..(PW(w, l) - 1) : nfAt(q) = x
    \* leaving across l, positions from its tail increase to the left
    IN <<<<l, p + 1>>, <<l, p>>>>
RegionAt(regs, nd) == CHOOSE r \in regs : nd \in r.nodes

(* Topology of the complement of a multicurve D (components, multiplicities ignored). *)
SkeletonW(z, D) == MultiWeights(z, TLCEval([i \in 1..Len(D) |-> [x |-> D[i].x, n |-> 1]]))
(* sequence of regions [nodes, chi, punct, sides, g] *)
CurveRegions(T, D) ==
  LET w == SkeletonW(T.z, D)
      regs == RegionsOf(T, w)
      sides == TLCEval([i \in 1..Len(D) |-> SidesOf(T, w, D[i].x)])
      pts == VertexReps(T)
      mk(r) == LET pn == {v \in pts : <<v, 0>> \in r.nodes}
                   sd == {<<i, s>> \in (1..Len(D)) \X {1, 2} : sides[i][s] \in r.nodes}
               IN [nodes |-> r.nodes, chi |-> r.chi, punct |-> pn, sides |-> sd,
                   g |-> (2 - Cardinality(pn) - Cardinality(sd) - r.chi) \div 2]
  IN [regs |-> SetToSeq({mk(r) : r \in regs}), sides |-> sides]
Separating(T, D) == Len(CurveRegions(T, D).regs) > Cardinality(Components(T))
(* Surfaces after crushing along the (non-peripheral) curves D: multiset of <<g, p>>. *)
CrushedSurfaces(T, D) ==
  LET R == CurveRegions(T, D).regs IN
  TLCEval([i \in 1..Len(R) |-> <<R[i].g, Cardinality(R[i].punct) + Cardinality(R[i].sides)>>])

------------------------------------------------------------------------------
(* Mapping class group orbit of a lamination: an isomorphism test.            *)
(* Structure: regions with (genus, punctures, faces, curve sides), curves with *)
(* multiplicity, ribbon graph with multiplicities.                            *)
Structure(T, D) ==
  LET w == SkeletonW(T.z, D)
      regs == SetToSeq(RegionsOf(T, w))
      A == SelectSeq(D, LAMBDA m : IsArcKind(m.x))
      C == CurvesOf(D)
      arcs == TLCEval([i \in 1..Len(A) |-> A[i].x])
      rb == Ribbon(T, arcs)
      at(nd) == CHOOSE i \in 1..Len(regs) : nd \in regs[i].nodes
      asides == TLCEval([i \in 1..Len(A) |-> SidesOf(T, w, OrientedNF(T, A[i].x))])
      csides == TLCEval([i \in 1..Len(C) |-> SidesOf(T, w, C[i].x)])
      \* region to the left of dart i
      leftOf(i) == at(IF i % 2 = 1 THEN asides[(i + 1) \div 2][1] ELSE asides[i \div 2][2])
      faceReg == TLCEval([f \in 1..Len(rb.faces) |-> leftOf(rb.faces[f][1])])
      on == IF arcs = <<>> THEN {} ELSE VertexOn(T, arcs)
      free == VertexReps(T) \ on
      pn(i) == Cardinality({v \in free : <<v, 0>> \in regs[i].nodes})
      cs(i) == Cardinality({x \in (1..Len(C)) \X {1, 2} : at(csides[x[1]][x[2]]) = i})
      fc(i) == Cardinality({f \in 1..Len(rb.faces) : faceReg[f] = i})
  IN [n |-> Len(regs),
      lab |-> TLCEval([i \in 1..Len(regs) |-> <<(2 - pn(i) - cs(i) - fc(i) - regs[i].chi) \div 2, pn(i), cs(i), fc(i)>>]),
      cur |-> TLCEval([i \in 1..Len(C) |-> <<C[i].n, at(csides[i][1]), at(csides[i][2])>>]),
      dm |-> TLCEval([i \in 1..(2 * Len(A)) |-> A[(i + 1) \div 2].n]),
      cw |-> rb.cw, df |-> TLCEval([i \in 1..(2 * Len(A)) |-> leftOf(i)])]

CurveMultiset(S, f) ==        \* function <<n, {a,b}>> -> count, regions renamed by f
  LET keys == {<<S.cur[i][1], {f[S.cur[i][2]], f[S.cur[i][3]]}>> : i \in 1..Len(S.cur)} IN
  TLCEval([k \in keys |-> Cardinality({i \in 1..Len(S.cur) : <<S.cur[i][1], {f[S.cur[i][2]], f[S.cur[i][3]]}>> = k})])

RECURSIVE DartExtend(_, _, _, _)
DartExtend(S, R, f, front) ==        \* f: partial injective function darts(S) -> darts(R); <<>> on failure
  IF front = {} THEN f
  ELSE LET i == CHOOSE x \in front : TRUE
           chk(g, a, b) == IF a \in DOMAIN g THEN (IF g[a] = b THEN 1 ELSE 0) ELSE 2
           s1 == chk(f, Twin(i), Twin(f[i])) s2 == chk(f, S.cw[i], R.cw[f[i]])
       IN IF s1 = 0 \/ s2 = 0 \/ S.dm[i] # R.dm[f[i]] THEN <<>>
          ELSE LET g1 == IF s1 = 2 THEN f @@ (Twin(i) :> Twin(f[i])) ELSE f
                   s3 == chk(g1, S.cw[i], R.cw[f[i]])
                   g2 == IF s3 = 2 THEN g1 @@ (S.cw[i] :> R.cw[f[i]]) ELSE g1
               IN IF s3 = 0 THEN <<>>
                  ELSE DartExtend(S, R, g2, (front \ {i}) \cup (DOMAIN g2 \ DOMAIN f))
RECURSIVE DartIsos(_, _, _, _)
DartIsos(S, R, todo, acc) ==          \* all isomorphisms of the ribbon graphs
  IF todo = {} THEN acc
  ELSE LET i == Min(todo)
           step(f) == {g \in {DartExtend(S, R, f @@ (i :> j), {i}) : j \in (1..Len(R.dm)) \ Range(f)} :
                         g # <<>> /\ IsInjective(g)}
           nxt == UNION {step(f) : f \in acc}
       IN IF nxt = {} THEN {} ELSE DartIsos(S, R, todo \ DOMAIN (CHOOSE g \in nxt : TRUE), nxt)
(* all ways to extend the region matching *)
RegionOK(S, R, f) == CurveMultiset(S, f) = CurveMultiset(R, TLCEval([i \in 1..R.n |-> i]))
RECURSIVE RegionMatch(_, _, _, _)
RegionMatch(S, R, f, i) ==            \* f: partial regions(S) -> regions(R)
  IF i > S.n THEN RegionOK(S, R, f)
  ELSE IF i \in DOMAIN f THEN S.lab[i] = R.lab[f[i]] /\ RegionMatch(S, R, f, i + 1)
  ELSE \E j \in (1..R.n) \ Range(f) : S.lab[i] = R.lab[j] /\ RegionMatch(S, R, f @@ (i :> j), i + 1)
SameOrbit(S, R) ==
  /\ S.n = R.n /\ Len(S.cur) = Len(R.cur) /\ Len(S.dm) = Len(R.dm)
  /\ IF S.dm = <<>> THEN RegionMatch(S, R, <<>>, 1)
     ELSE \E f \in DartIsos(S, R, 1..Len(S.dm), {<<>>}) :
       LET pairs == {<<S.df[i], R.df[f[i]]>> : i \in DOMAIN f} IN
       /\ Cardinality({p[1] : p \in pairs}) = Cardinality(pairs)
       /\ Cardinality({p[2] : p \in pairs}) = Cardinality(pairs)
       /\ RegionMatch(S, R, PairsToFcn(pairs), 1)

(* The closed variant: curves only, at most one puncture on each component, punctures filled in. *)
(* A once-punctured annulus between two different curves makes them isotopic.                   *)
ClosedStructure(T, D) ==
  LET E == SelectSeq(CurvesOf(D), LAMBDA m : ~IsPeripheral(T, m.x))
      S == Structure(T, E)
      ann == {i \in 1..S.n : S.lab[i] = <<0, 1, 2, 0>>}
      \* the two curve sides of an annular region, as curve numbers
      sides(i) == {k \in 1..Len(S.cur) : S.cur[k][2] = i \/ S.cur[k][3] = i}
      merge == {i \in ann : Cardinality(sides(i)) = 2}
      far(k, i) == IF S.cur[k][2] = i THEN S.cur[k][3] ELSE S.cur[k][2]
      gone == UNION {sides(i) : i \in merge}
      new == SetToSeq({<<i, S.cur[Min(sides(i))][1] + S.cur[Max(sides(i))][1], far(Min(sides(i)), i), far(Max(sides(i)), i)>> : i \in merge})
      keepC == SelectSeq([k \in 1..Len(S.cur) |-> k], LAMBDA k : k \notin gone)
      keepR == SelectSeq([i \in 1..S.n |-> i], LAMBDA i : i \notin merge)
      pos(i) == Cardinality({j \in 1..Len(keepR) : keepR[j] <= i})
      c3(n, a, b) == <<n, pos(a), pos(b)>>
  IN [n |-> Len(keepR), lab |-> TLCEval([i \in 1..Len(keepR) |-> <<S.lab[keepR[i]][1], 0, S.lab[keepR[i]][3], 0>>]),
      cur |-> TLCEval([k \in 1..Len(keepC) |-> c3(S.cur[keepC[k]][1], S.cur[keepC[k]][2], S.cur[keepC[k]][3])])
              \o TLCEval([k \in 1..Len(new) |-> c3(new[k][2], new[k][3], new[k][4])]),
      dm |-> <<>>, cw |-> <<>>, df |-> <<>>]
ClosedOK(T, D) == ArcsOf(D) = <<>> /\ \A C \in Components(T) : CompPunctures(T, C) <= 1
=============================================================================
