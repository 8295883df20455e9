----------------------------- MODULE SamplingMC -----------------------------
(* A uniform composition by breaking off one part after the other, with      *)
(* `Quanta` indivisible pieces instead of a continuum: every composition of  *)
(* n parts has to be reached with the same probability.  The moments that    *)
(* Sampling.tla states for the continuum are the factorial moments of the    *)
(* pieces, exactly.                                                          *)
EXTENDS Sampling, Integers
CONSTANTS Quanta, MaxParts
VARIABLES n, parts, left, prob
vars == <<n, parts, left, prob>>

RECURSIVE Binom(_, _)
Binom(a, b) == IF b = 0 \/ a = b THEN 1 ELSE IF b < 0 \/ b > a THEN 0 ELSE Binom(a - 1, b - 1) + Binom(a - 1, b)
\* ways to distribute r pieces over k parts
Ways(r, k) == IF k = 0 THEN (IF r = 0 THEN 1 ELSE 0) ELSE Binom(r + k - 1, k - 1)

Init == n \in 1..MaxParts /\ parts = <<>> /\ left = Quanta /\ prob = R(1)
\* the discrete form of a beta(1, k - 1) share of what is left, k parts being missing
Break(x) ==
  LET k == n - Len(parts) IN
  /\ k > 0 /\ x <= left
  /\ Ways(left - x, k - 1) > 0
  /\ parts' = Append(parts, x) /\ left' = left - x
  /\ prob' = RMul(prob, Q(Ways(left - x, k - 1), Ways(left, k)))
  /\ n' = n
Next == \E x \in 0..Quanta : Break(x)
Spec == Init /\ [][Next]_vars

Done == Len(parts) = n
Uniform == Done => left = 0 /\ REq(prob, Q(1, Ways(Quanta, n)))
\* a share is never negative, and what is left is what the shares leave
Bounded == left >= 0 /\ RLt(R(0), prob)

(* moments, by enumeration of all compositions *)
RECURSIVE Comps(_, _)
Comps(r, k) == IF k = 1 THEN {<<r>>} ELSE UNION {{<<x>> \o c : c \in Comps(r - x, k - 1)} : x \in 0..r}
RECURSIVE Falling(_, _)
Falling(x, a) == IF a = 0 THEN 1 ELSE (x - a + 1) * Falling(x, a - 1)
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN f[c] + SumSet(S \ {c}, f)
Mean1(a) == LET f == [c \in Comps(Quanta, n) |-> Falling(c[1], a)] IN Q(SumSet(Comps(Quanta, n), f), Ways(Quanta, n))
Mean2(a, b) == LET f == [c \in Comps(Quanta, n) |-> Falling(c[1], a) * Falling(c[2], b)] IN Q(SumSet(Comps(Quanta, n), f), Ways(Quanta, n))
Moments == (parts = <<>>) =>
  /\ Cardinality(Comps(Quanta, n)) = Ways(Quanta, n)
  /\ \A a \in 1..4 : REq(Mean1(a), RMul(R(Falling(Quanta, a)), SMoment1(n, a)))
  /\ n > 1 => \A a, b \in 1..2 : REq(Mean2(a, b), RMul(R(Falling(Quanta, a + b)), SMoment2(n, a, b)))
\* tails: more than t of the pieces; the pieces that are certain are taken away and the rest is distributed freely
Tails == (parts = <<>> /\ n > 1) => \A t \in 0..(Quanta - 1) :
  Cardinality({c \in Comps(Quanta, n) : c[1] > t}) = Ways(Quanta - t - 1, n)

(* normal numbers: pairings, and the probability inside one and two standard deviations *)
RECURSIVE Pairings(_)
Pairings(S) == IF S = {} THEN 1 ELSE LET a == CHOOSE x \in S : TRUE IN Cardinality(S \ {a}) * Pairings((S \ {a}) \ {CHOOSE y \in S \ {a} : TRUE})
Simpson(b, k) ==   \* integral of exp(-x^2/2) from 0 to b
  LET h == RDiv(b, R(2 * k))
      f(i) == RExp(RNeg(RDiv(RMul(RMul(h, R(i)), RMul(h, R(i))), R(2))))
      w(i) == IF i = 0 \/ i = 2 * k THEN R(1) ELSE IF i % 2 = 1 THEN R(4) ELSE R(2)
  IN RMul(RDiv(h, R(3)), RSum([i \in 1..(2 * k + 1) |-> RMul(w(i - 1), f(i - 1))]))
Root(x) == RExp(RDiv(RLn(x), R(2)))
TwoOverRootTwoPi == RDiv(R(2), Root(R("6.283185307179586")))
Normal == (parts = <<>> /\ n = 1) =>
  /\ \A k \in 1..4 : Pairings(1..(2 * k)) = NMoment(k)
  /\ Within(RMul(TwoOverRootTwoPi, Simpson(R(1), 40)), NInside1, R("1e-7"))
  /\ Within(RMul(TwoOverRootTwoPi, Simpson(R(2), 40)), NInside2, R("1e-6"))
  /\ Within(RMul(TwoOverRootTwoPi, Simpson(R(3), 80)), NInside3, R("1e-6"))
  /\ Within(RMul(TwoOverRootTwoPi, Simpson(R("3.5"), 80)), NInside35, R("1e-6"))
=============================================================================
