------------------------------- MODULE Phases -------------------------------
(***************************************************************************)
(* Collections of phases (flory/common/phases.py): a collection is a       *)
(* record [cls, vol (sequence of volumes), frac (sequence of compositions),*)
(* info] and every operation yields a new collection.                      *)
(***************************************************************************)
EXTENDS Vec, Integers

NumPh(c) == Len(c.vol)
Total(c) == RSum(c.vol)
MeanFrac(c) == LET t == Total(c) IN [i \in 1..Len(c.frac[1]) |-> RDiv(RDot(Col(c.frac, i), c.vol), t)]
Normalized(c) == LET t == Total(c) IN [c EXCEPT !.vol = TLCEval([p \in 1..NumPh(c) |-> RDiv(c.vol[p], t)])]

(* ---- order: index of the most concentrated component, then of the next one, ... ---- *)
Rank(row, i) == 1 + Cardinality({j \in 1..Len(row) : RLt(row[i], row[j])})     \* 1: most concentrated
Keyed(row) == \A i, j \in 1..Len(row) : i = j \/ ~REq(row[i], row[j])           \* no ties
Key(row) == TLCEval([k \in 1..Len(row) |-> CHOOSE i \in 1..Len(row) : Rank(row, i) = k])
RECURSIVE LexLe(_, _, _)
LexLe(a, b, k) == k > Len(a) \/ a[k] < b[k] \/ (a[k] = b[k] /\ LexLe(a, b, k + 1))
InOrder(c) == LET key == TLCEval([p \in 1..NumPh(c) |-> IF Keyed(c.frac[p]) THEN Key(c.frac[p]) ELSE <<>>]) IN
   \A p, q \in 1..NumPh(c) : (p < q /\ key[p] # <<>> /\ key[q] # <<>>) => LexLe(key[p], key[q], 1)
\* one order of a collection without ties (stable insertion)
RECURSIVE Insert(_, _, _)
Insert(c, s, p) == IF s = <<>> THEN <<p>>
   ELSE IF LexLe(Key(c.frac[s[Len(s)]]), Key(c.frac[p]), 1) THEN Append(s, p) ELSE Append(Insert(c, SubSeq(s, 1, Len(s) - 1), p), s[Len(s)])
SortPerm(c) == LET F[p \in 0..NumPh(c)] == IF p = 0 THEN <<>> ELSE Insert(c, F[p - 1], p) IN F[NumPh(c)]
Permuted(c, s) == [c EXCEPT !.vol = TLCEval([p \in 1..Len(s) |-> c.vol[s[p]]]), !.frac = TLCEval([p \in 1..Len(s) |-> c.frac[s[p]]])]
Sorted(c) == Permuted(c, SortPerm(c))

(* ---- clusters -------------------------------------------------------------------- *)
Dist2(a, b) == LET d == VSub(a, b) IN RDot(d, d)
Sq(x) == RMul(x, x)
\* groups: connected by distances of at most 9/10 of the cut-off
RECURSIVE Grow(_, _)
Grow(adj, g) == LET h == TLCEval(g \cup UNION {adj[x] : x \in g}) IN IF h = g THEN g ELSE Grow(adj, h)
Groups(c, d) ==
  LET lim == Sq(RMul(R("9/10"), d))
      adj == TLCEval([p \in 1..NumPh(c) |-> {q \in 1..NumPh(c) : RLe(Dist2(c.frac[p], c.frac[q]), lim)}])
  IN TLCEval({Grow(adj, {p}) : p \in 1..NumPh(c)})
\* the extent of every group is small and the gaps between them are large: what a group is does not
\* depend on how distances between groups are measured
Separated(c, d, gs) ==
  /\ \A g \in gs : \A p, q \in g : RLe(Dist2(c.frac[p], c.frac[q]), Sq(RMul(R("9/10"), d)))
  /\ \A g, h \in gs : g = h \/ \A p \in g, q \in h : RLt(Sq(RMul(R("3"), d)), Dist2(c.frac[p], c.frac[q]))
GroupVol(c, g) == RSum([p \in 1..NumPh(c) |-> IF p \in g THEN c.vol[p] ELSE R(0)])
GroupFrac(c, g) == LET v == GroupVol(c, g) IN
   TLCEval([i \in 1..Len(c.frac[1]) |-> RDiv(RSum([p \in 1..NumPh(c) |-> IF p \in g THEN RMul(c.vol[p], c.frac[p][i]) ELSE R(0)]), v)])
SetToSeq1(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]
MinOf(g) == CHOOSE p \in g : \A q \in g : p <= q
RECURSIVE Listed(_)
Listed(gs) == IF gs = {} THEN <<>> ELSE LET g == CHOOSE x \in gs : \A y \in gs : MinOf(x) <= MinOf(y) IN <<g>> \o Listed(gs \ {g})
Merged(c, gs) == LET s == Listed(gs) IN
   [c EXCEPT !.vol = TLCEval([k \in 1..Len(s) |-> GroupVol(c, s[k])]), !.frac = TLCEval([k \in 1..Len(s) |-> GroupFrac(c, s[k])])]
Clustered(c, d) == IF NumPh(c) < 2 THEN c ELSE Sorted(Merged(c, Groups(c, d)))

(* ---- the relation between a collection and the observed result of an operation ------ *)
SameRow(a, b) == EqV(a, b)
Multiset(c, d) ==   \* same (volume, composition) pairs with multiplicity
  /\ NumPh(c) = NumPh(d)
  /\ \A p \in 1..NumPh(c) :
       Cardinality({q \in 1..NumPh(c) : SameRow(c.frac[q], c.frac[p]) /\ REq(c.vol[q], c.vol[p])})
       = Cardinality({q \in 1..NumPh(d) : SameRow(d.frac[q], c.frac[p]) /\ REq(d.vol[q], c.vol[p])})
SameMean(c, d) == LET t == RMul(R("1e-9"), RAdd(R(1), MaxAbsM(c.frac))) IN
   \A i \in 1..Len(c.frac[1]) : Within(MeanFrac(c)[i], MeanFrac(d)[i], t)
NearVol(a, b, c) == RLe(RAbs(RSub(a, b)), RMul(Eps, Total(c)))
NearRow(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], RMaxAbs(b))
MatchesGroups(c, d, gs) ==
  /\ NumPh(d) = Cardinality(gs)
  /\ \A g \in gs : \E q \in 1..NumPh(d) : NearVol(d.vol[q], GroupVol(c, g), c) /\ NearRow(d.frac[q], GroupFrac(c, g))
=============================================================================
