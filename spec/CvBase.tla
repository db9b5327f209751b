------------------------------- MODULE CvBase -------------------------------
(***************************************************************************)
(* Combinatorics of (possibly disconnected) ideal triangulations.          *)
(*                                                                         *)
(* An oriented edge is an integer label; the reverse of l is Rev(l) = ~l.  *)
(* A triangulation T is a record [z, nx]: z edges, labels -z..z-1, and     *)
(* nx[l] the edge following l anticlockwise in the triangle on l's left.   *)
(* A corner is named by the oriented edge leaving it inside its triangle.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Folds

Rev(l) == -1 - l
Idx(l) == IF l >= 0 THEN l ELSE -1 - l
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a
Pos(a) == IF a >= 0 THEN a ELSE 0

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumFcn(S, F(_)) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)
Repeat(s, n) == FoldLeft(LAMBDA acc, i : acc \o s, <<>>, TLCEval([i \in 1..n |-> i]))
Rot(s, i) == SubSeq(s, i, Len(s)) \o SubSeq(s, 1, i - 1)   \* rotation starting at position i

Labels(z) == (-z)..(z - 1)

(* A list of triples of labels is a triangulation iff every label occurs exactly once. *)
IsTriples(ts) ==
  LET flat == FoldLeft(LAMBDA acc, t : acc \o t, <<>>, ts) IN
  /\ Len(flat) % 2 = 0
  /\ \A i \in 1..Len(ts) : Len(ts[i]) = 3
  /\ Len(flat) > 0
  /\ Len(flat) % 6 = 0
  /\ {flat[i] : i \in 1..Len(flat)} = Labels(Len(flat) \div 2)

MkTri(ts) ==
  LET z == (3 * Len(ts)) \div 2
      pairs == UNION {{<<ts[i][1], ts[i][2]>>, <<ts[i][2], ts[i][3]>>, <<ts[i][3], ts[i][1]>>} : i \in 1..Len(ts)}
      nxt == FoldSet(LAMBDA p, f : [f EXCEPT ![p[1]] = p[2]], TLCEval([l \in Labels(z) |-> 0]), pairs)
  IN [z |-> z, nx |-> nxt]

Nx(T, l) == T.nx[l]
Pv(T, l) == T.nx[T.nx[l]]
TriOf(T, l) == {l, T.nx[l], T.nx[T.nx[l]]}
Triangles(T) == {TriOf(T, l) : l \in Labels(T.z)}
(* Canonical representative (the least label) of the triangle to the left of l. *)
TriRep(T, l) == LET a == T.nx[l] b == T.nx[a] IN Min2(l, Min2(a, b))

IsTri(T) == /\ \A l \in Labels(T.z) : T.nx[l] \in Labels(T.z) /\ T.nx[T.nx[T.nx[l]]] = l /\ T.nx[l] # l
            /\ IsInjective(T.nx)

(* The next edge anticlockwise out of the tail of l. *)
Turn(T, l) == Rev(Pv(T, l))
(* ... and clockwise. *)
TurnBack(T, l) == Nx(T, Rev(l))

RECURSIVE VertexFrom(_, _, _)
VertexFrom(T, l, acc) == LET m == Turn(T, Last(acc)) IN IF m = l THEN acc ELSE VertexFrom(T, l, Append(acc, m))
(* The anticlockwise sequence of oriented edges out of the tail of l, starting with l. *)
VertexSeq(T, l) == VertexFrom(T, l, <<l>>)
VertexSet(T, l) == ToSet(VertexSeq(T, l))

(* A function: label -> least label of its tail's class *)
RECURSIVE VRepBuild(_, _, _)
VRepBuild(T, todo, f) ==
  IF todo = {} THEN f
  ELSE LET m == Min(todo)
           vs == VertexSet(T, m)
       IN VRepBuild(T, todo \ vs, TLCEval([l \in DOMAIN f |-> IF l \in vs THEN m ELSE f[l]]))
VRep(T) == VRepBuild(T, Labels(T.z), TLCEval([l \in Labels(T.z) |-> l]))
VertexReps(T) == LET f == VRep(T) IN {f[l] : l \in DOMAIN f}

(* Connected components, as sets of labels. *)
RECURSIVE Flood(_, _, _)
Flood(T, front, seen) ==
  IF front = {} THEN seen
  ELSE LET nw == ({Rev(l) : l \in front} \cup {T.nx[l] : l \in front}) \ seen
       IN Flood(T, nw, seen \cup nw)
RECURSIVE CompBuild(_, _)
CompBuild(T, todo) ==
  IF todo = {} THEN {}
  ELSE LET m == Min(todo) c == Flood(T, {m}, {m}) IN {c} \cup CompBuild(T, todo \ c)
Components(T) == CompBuild(T, Labels(T.z))

(* Genus, punctures and Euler characteristic (punctures removed) of a component C. *)
CompPunctures(T, C) == Cardinality({v \in VertexReps(T) : v \in C})
CompChi(C) == -(Cardinality(C) \div 6)        \* E = |C|/2, F = |C|/3, V removed: chi = F - E
CompGenus(T, C) == LET V == CompPunctures(T, C) IN (2 - V - CompChi(C)) \div 2

Flippable(T, e) == TriOf(T, e) # TriOf(T, Rev(e))
Square(T, e) == <<Nx(T, e), Pv(T, e), Nx(T, Rev(e)), Pv(T, Rev(e))>>

(* Flip e: triangles (e a b)(~e c d) become (i d a)(~i b c), with i = the positive label of e. *)
FlipT(T, e) ==
  LET q == Square(T, e)
      a == q[1] b == q[2] c == q[3] d == q[4]
      i == Idx(e) j == Rev(i)
      upd == (i :> d) @@ (d :> a) @@ (a :> i) @@ (j :> b) @@ (b :> c) @@ (c :> j)
  IN [z |-> T.z, nx |-> TLCEval([l \in Labels(T.z) |-> IF l \in DOMAIN upd THEN upd[l] ELSE T.nx[l]])]

(* A set of edges has disjoint support when no triangle is used twice. *)
DisjointSupport(T, es) ==
  Cardinality({TriRep(T, l) : l \in es} \cup {TriRep(T, Rev(l)) : l \in es}) = 2 * Cardinality(es)

MultiFlipT(T, es) == FoldSet(LAMBDA e, S : FlipT(S, e), T, es)

(* p : Labels -> Labels, p[~l] = ~p[l] *)
RelabelT(T, p) ==
  LET q == TLCEval([l \in Labels(T.z) |-> CHOOSE k \in Labels(T.z) : p[k] = l])
  IN [z |-> T.z, nx |-> TLCEval([l \in Labels(T.z) |-> p[T.nx[q[l]]]])]

(* Isometries: label bijections commuting with Rev and nx. *)
IsIsometry(S, T, p) ==
  /\ S.z = T.z
  /\ DOMAIN p = Labels(S.z)
  /\ {p[l] : l \in DOMAIN p} = Labels(T.z)
  /\ \A l \in Labels(S.z) : p[Rev(l)] = Rev(p[l]) /\ p[S.nx[l]] = T.nx[p[l]]

(* Extend a partial label map (a set of pairs) to whole components; {} if inconsistent. *)
RECURSIVE ExtendMap(_, _, _, _)
ExtendMap(S, T, pairs, front) ==
  IF front = {} THEN pairs
  ELSE LET nw == ({<<Rev(x[1]), Rev(x[2])>> : x \in front} \cup {<<S.nx[x[1]], T.nx[x[2]]>> : x \in front}) \ pairs
       IN IF Cardinality({x[1] : x \in pairs \cup nw}) < Cardinality(pairs \cup nw)
             \/ Cardinality({x[2] : x \in pairs \cup nw}) < Cardinality(pairs \cup nw)
          THEN {} ELSE ExtendMap(S, T, pairs \cup nw, nw)

PairsToFcn(pairs) == TLCEval([l \in {x[1] : x \in pairs} |-> (CHOOSE x \in pairs : x[1] = l)[2]])

(* All isometries from S to T, by extending every choice of image of one label per component. *)
RECURSIVE IsoBuild(_, _, _, _)
IsoBuild(S, T, comps, acc) ==
  IF comps = {} THEN acc
  ELSE LET C == CHOOSE C \in comps : TRUE
           l == Min(C)
           ext == {ExtendMap(S, T, {<<l, m>>}, {<<l, m>>}) : m \in Labels(T.z)} \ {{}}
           joint == {p \cup q : p \in acc, q \in ext}
           good == {r \in joint : /\ Cardinality({x[2] : x \in r}) = Cardinality(r)
                                  /\ Cardinality({x[1] : x \in r}) = Cardinality(r)}
       IN IsoBuild(S, T, comps \ {C}, good)
AllIsometries(S, T) ==
  IF S.z # T.z THEN {}
  ELSE {PairsToFcn(r) : r \in {q \in IsoBuild(S, T, Components(S), {{}}) : Cardinality(q) = 2 * S.z}}
(* find_isometry: extend the given map; identity on components not mentioned (neither as source nor target). *)
FindIso(S, T, given) ==     \* the set of label maps allowed (at most one), {} when none
  LET g == {<<given[i][1], given[i][2]>> : i \in 1..Len(given)}
      ext == ExtendMap(S, T, g, g)
      base == IF g = {} THEN {} ELSE ext
      used == {x[1] : x \in base} \cup {x[2] : x \in base}
      full == base \cup {<<l, l>> : l \in Labels(S.z) \ used}
  IN IF S.z # T.z \/ (g # {} /\ ext = {}) \/ Cardinality({x[1] : x \in full}) # Cardinality(full)
        \/ Cardinality({x[2] : x \in full}) # Cardinality(full) \/ Cardinality(full) # 2 * S.z
     THEN {}
     ELSE {p \in {PairsToFcn(full)} : IsIsometry(S, T, p)}

=============================================================================
