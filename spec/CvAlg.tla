------------------------------- MODULE CvAlg -------------------------------
(***************************************************************************)
(* The algebraic data structures: permutations, partitions, straight line  *)
(* programs and words in named generators.                                 *)
(***************************************************************************)
EXTENDS CvBase

------------------------------------------------------------------------------
(* Permutations of 0..n-1, as sequences p with p[i+1] the image of i. *)
PAt(p, i) == p[i + 1]
PId(n) == TLCEval([i \in 1..n |-> i - 1])
PMul(p, q) == TLCEval([i \in 1..Len(p) |-> PAt(p, q[i])])            \* q first
PInv(p) == TLCEval([i \in 1..Len(p) |-> (CHOOSE j \in 1..Len(p) : p[j] = i - 1) - 1])
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN PId(Len(p)) ELSE IF k < 0 THEN PPow(PInv(p), -k) ELSE PMul(p, PPow(p, k - 1))
RECURSIVE POrbit(_, _, _)
POrbit(p, i, acc) == IF i \in acc THEN acc ELSE POrbit(p, PAt(p, i), acc \cup {i})
PCycles(p) == {POrbit(p, i, {}) : i \in 0..(Len(p) - 1)}
PCycleLengths(p) == SortSeq(TLCEval([i \in 1..Cardinality(PCycles(p)) |-> Cardinality(SetToSeq(PCycles(p))[i])]), LAMBDA a, b : a < b)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
POrder(p) == FoldSet(LAMBDA c, acc : Lcm(Cardinality(c), acc), 1, PCycles(p))
PEven(p) == (Len(p) - Cardinality(PCycles(p))) % 2 = 0
PConj(p, q) == Len(p) = Len(q) /\ PCycleLengths(p) = PCycleLengths(q)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
(* lexicographic rank: how many permutations are smaller *)
PIndex(p) == SumSeq(TLCEval([i \in 1..Len(p) |-> Fact(Len(p) - i) * Cardinality({j \in (i + 1)..Len(p) : p[j] < p[i]})]))
PMatrix(p) == TLCEval([r \in 1..Len(p) |-> TLCEval([c \in 1..Len(p) |-> IF p[c] = r - 1 THEN 1 ELSE 0])])

------------------------------------------------------------------------------
(* Partitions of 0..n-1 as sets of sets. *)
Discrete(n) == {{i} : i \in 0..(n - 1)}
Merge(P, S) ==
  LET hit == {c \in P : c \cap S # {}} IN IF hit = {} THEN P ELSE (P \ hit) \cup {UNION hit}

------------------------------------------------------------------------------
(* Words as expressions: [k |-> "w", v] literal, "cat" a b, "mul" n a, "rev" a, "add" c a (add c to every letter). *)
RECURSIVE SLen(_)
SLen(x) ==
  CASE x.k = "w" -> Len(x.v)
    [] x.k = "cat" -> SumSeq(TLCEval([i \in 1..Len(x.a) |-> SLen(x.a[i])]))
    [] x.k = "mul" -> x.n * SLen(x.a)
    [] OTHER -> SLen(x.a)
RECURSIVE SAt(_, _)
RECURSIVE SAtCat(_, _, _)
SAt(x, i) ==                         \* 0 <= i < SLen(x)
  CASE x.k = "w" -> x.v[i + 1]
    [] x.k = "cat" -> SAtCat(x.a, 1, i)
    [] x.k = "mul" -> SAt(x.a, i % SLen(x.a))
    [] x.k = "rev" -> SAt(x.a, SLen(x.a) - 1 - i)
    [] x.k = "add" -> SAt(x.a, i) + x.c
SAtCat(s, j, i) == LET n == SLen(s[j]) IN IF i < n THEN SAt(s[j], i) ELSE SAtCat(s, j + 1, i - n)
RECURSIVE SHas(_, _)
SHas(x, v) ==
  CASE x.k = "w" -> v \in ToSet(x.v)
    [] x.k = "cat" -> \E i \in 1..Len(x.a) : SHas(x.a[i], v)
    [] x.k = "mul" -> x.n > 0 /\ SHas(x.a, v)
    [] x.k = "rev" -> SHas(x.a, v)
    [] x.k = "add" -> SHas(x.a, v - x.c)
(* a graph given node by node: children <<0, node>> (numbered from 0) or <<1, value>>; node 0 is the word *)
RECURSIVE SGraph(_, _)
SGraph(g, i) == [k |-> "cat", a |-> TLCEval([j \in 1..Len(g[i + 1]) |->
   IF g[i + 1][j][1] = 1 THEN [k |-> "w", v |-> <<g[i + 1][j][2]>>] ELSE SGraph(g, g[i + 1][j][2])])]

------------------------------------------------------------------------------
(* Words in named generators, as sequences of characters. *)
Lowers == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Uppers == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
LowerSet == ToSet(Lowers)
UpperSet == ToSet(Uppers)
DigitSet == ToSet(Digits)
IndexOf(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c
SwapChar(c) == IF c \in LowerSet THEN Uppers[IndexOf(Lowers, c)] ELSE IF c \in UpperSet THEN Lowers[IndexOf(Uppers, c)] ELSE c
SwapName(n) == TLCEval([i \in 1..Len(n) |-> SwapChar(n[i])])
WordChars == LowerSet \cup UpperSet \cup DigitSet \cup {"_", "."}
Blank == {" ", "\t", "\n"}
NoBlanks(cs) == SelectSeq(cs, LAMBDA c : c \notin Blank)

RECURSIVE RunEnd(_, _, _)
RunEnd(cs, i, S) == IF i <= Len(cs) /\ cs[i] \in S THEN RunEnd(cs, i + 1, S) ELSE i
ToNum(ds) == FoldLeft(LAMBDA acc, c : 10 * acc + IndexOf(Digits, c) - 1, 0, ds)
(* Tokens: integers, powers, brackets, runs of word characters; anything else only separates them. *)
RECURSIVE Tokens(_, _)
Tokens(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET c == cs[i] IN
    IF c \in DigitSet THEN LET j == RunEnd(cs, i, DigitSet) IN <<[k |-> "i", n |-> ToNum(SubSeq(cs, i, j - 1)), s |-> <<>>]>> \o Tokens(cs, j)
    ELSE IF c \in {"+", "-"} /\ i < Len(cs) /\ cs[i + 1] \in DigitSet THEN
      LET j == RunEnd(cs, i + 1, DigitSet) n == ToNum(SubSeq(cs, i + 1, j - 1)) IN
      <<[k |-> "i", n |-> IF c = "-" THEN -n ELSE n, s |-> <<>>]>> \o Tokens(cs, j)
    ELSE IF c \in {"^", "(", ")"} THEN <<[k |-> c, n |-> 0, s |-> <<>>]>> \o Tokens(cs, i + 1)
    ELSE IF c \in WordChars THEN LET j == RunEnd(cs, i, WordChars) IN <<[k |-> "w", n |-> 0, s |-> SubSeq(cs, i, j - 1)]>> \o Tokens(cs, j)
    ELSE Tokens(cs, i + 1)

(* Letters are <<generator, +1 or -1>>.  A parse is [ok, v]. *)
NoParse == [ok |-> FALSE, v |-> <<>>, i |-> 0]
Matches(s, i, name) == i + Len(name) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(name) - 1) = name
RECURSIVE Spell(_, _, _, _)
Spell(names, s, i, acc) ==           \* longest name first; dots separate
  IF i > Len(s) THEN [ok |-> TRUE, v |-> acc, i |-> 0]
  ELSE IF s[i] = "." THEN Spell(names, s, i + 1, acc)
  ELSE LET hit == {<<k, e>> \in (1..Len(names)) \X {1, -1} : Matches(s, i, IF e = 1 THEN names[k] ELSE SwapName(names[k]))}
       IN IF hit = {} THEN NoParse
          ELSE LET b == CHOOSE x \in hit : \A y \in hit : Len(names[y[1]]) <= Len(names[x[1]])
               IN Spell(names, s, i + Len(names[b[1]]), Append(acc, b))
InvLetters(v) == TLCEval([i \in 1..Len(v) |-> <<v[Len(v) + 1 - i][1], -v[Len(v) + 1 - i][2]>>])
PowLetters(v, k) == Repeat(IF k < 0 THEN InvLetters(v) ELSE v, Abs(k))
RECURSIVE Powers(_, _, _)
Powers(ts, i, v) ==                  \* apply the powers that follow
  IF i <= Len(ts) /\ ts[i].k = "^"
  THEN IF i < Len(ts) /\ ts[i + 1].k = "i" THEN Powers(ts, i + 2, PowLetters(v, ts[i + 1].n)) ELSE NoParse
  ELSE [ok |-> TRUE, v |-> v, i |-> i]
RECURSIVE ParseSeq(_, _, _, _)
ParseSeq(names, ts, i, acc) ==       \* up to a closing bracket or the end: [ok, v, i]
  IF i > Len(ts) \/ ts[i].k = ")" THEN [ok |-> TRUE, v |-> acc, i |-> i]
  ELSE IF ts[i].k = "w" THEN
    LET s == Spell(names, ts[i].s, 1, <<>>) IN
    IF ~s.ok THEN NoParse ELSE
    LET p == Powers(ts, i + 1, s.v) IN IF ~p.ok THEN NoParse ELSE ParseSeq(names, ts, p.i, acc \o p.v)
  ELSE IF ts[i].k = "(" THEN
    LET s == ParseSeq(names, ts, i + 1, <<>>) IN
    IF ~s.ok \/ s.i > Len(ts) THEN NoParse ELSE
    LET p == Powers(ts, s.i + 1, s.v) IN IF ~p.ok THEN NoParse ELSE ParseSeq(names, ts, p.i, acc \o p.v)
  ELSE NoParse
ParseWord(names, cs) ==
  LET ts == Tokens(NoBlanks(cs), 1) r == ParseSeq(names, ts, 1, <<>>) IN
  IF r.ok /\ r.i = Len(ts) + 1 THEN [ok |-> TRUE, v |-> r.v] ELSE [ok |-> FALSE, v |-> <<>>]

(* Helper functions. *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
RECURSIVE Base64(_)
Base64(n) == IF n = 0 THEN <<>> ELSE <<n % 64>> \o Base64(n \div 64)
SliceFrom(x, a) == LET n == Len(x) i == CHOOSE j \in 1..n : x[j] = a IN TLCEval([k \in 1..n |-> x[((i + k - 2) % n) + 1]])
UtilOK(ev, r) ==
  CASE ev.f = "maximin" -> r = [x |-> MaxOf({MinOf(ToSet(ev.xs[i])) : i \in 1..Len(ev.xs)})]
    [] ev.f = "maxes" -> IF ev.x = <<>> THEN r = [err |-> "ValueError"]
         ELSE LET m == MaxOf({ev.x[i] % ev.m : i \in 1..Len(ev.x)}) IN r = [x |-> SelectSeq(ev.x, LAMBDA v : v % ev.m = m)]
    [] ev.f = "maximum" ->     \* the first item reaching the bound, and otherwise the first largest one
         LET n == Len(ev.x)
             m == MaxOf({ev.x[i] % ev.m : i \in 1..n})
             hit == {i \in 1..n : IF ev.ub >= 0 /\ m >= ev.ub THEN ev.x[i] % ev.m >= ev.ub ELSE ev.x[i] % ev.m = m} IN r = [x |-> ev.x[MinOf(hit)]]
    [] ev.f = "slice" ->
         LET L == SliceFrom(ev.x, ev.a) at == {i \in 1..Len(L) : L[i] = ev.b} IN
         r = [x |-> IF at = {} THEN L ELSE SubSeq(L, 1, MinOf(at) - 1)]
    [] ev.f = "product" ->
         r = [x |-> IF ev.ps = <<>> THEN ev.s ELSE FoldLeft(LAMBDA acc, p : IF ev.left THEN PMul(p, acc) ELSE PMul(acc, p), Head(ev.ps), Tail(ev.ps))]
    [] ev.f = "b64" -> r = [x |-> [d |-> Base64(ev.n), n |-> ev.n]]
    [] ev.f = "half" -> r = IF ev.n % 2 = 0 THEN [x |-> ev.n \div 2] ELSE [err |-> "ValueError"]
    [] ev.f = "alpha" ->
         LET ns == ev.ns less(a, b) == ns[a][1] < ns[b][1] \/ (ns[a][1] = ns[b][1] /\ ns[a][2] < ns[b][2]) IN
         "x" \in DOMAIN r /\ ToSet(r.x) = 1..Len(ns) /\ Len(r.x) = Len(ns) /\ \A i \in 1..(Len(r.x) - 1) : less(r.x[i], r.x[i + 1])
    [] ev.f = "edge" ->
         "x" \in DOMAIN r /\ r.x.inv = -1 - ev.a /\ r.x.i = (IF ev.a >= 0 THEN ev.a ELSE -1 - ev.a) /\ r.x.s = (IF ev.a >= 0 THEN 1 ELSE -1)
           /\ r.x.eq = <<ev.a = ev.b, ev.a = ev.b>> /\ r.x.lt = <<ev.a < ev.b, ev.a < ev.b>> /\ (ev.a = ev.b => r.x.h)
=============================================================================
