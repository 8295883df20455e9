------------------------------ MODULE Sampling ------------------------------
(* The random inputs of flory as random variables: compositions that are     *)
(* uniform on the simplex, and independent normal numbers.  What a sample    *)
(* has to look like is stated by moments and probabilities of events;        *)
(* SamplingMC.tla derives these from the definitions of the variables.       *)
EXTENDS Vec

Q(a, b) == RDiv(R(a), R(b))

(* ---- uniform on the simplex of n fractions ---------------------------------- *)
RECURSIVE Rising(_, _)
Rising(n, k) == IF k = 0 THEN 1 ELSE (n + k - 1) * Rising(n, k - 1)      \* n (n+1) .. (n+k-1)
Fact(k) == Rising(1, k)
\* E[x_1^a x_2^b ...] = a! b! .. / (n (n+1) .. (n+a+b+..-1))
SMoment1(n, a)    == Q(Fact(a), Rising(n, a))
SMoment2(n, a, b) == Q(Fact(a) * Fact(b), Rising(n, a + b))
RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN R(1) ELSE RMul(x, RPow(x, k - 1))
STail(n, t) == RPow(RSub(R(1), t), n - 1)                                \* P(x_i > t)

(* ---- normal numbers ---------------------------------------------------------- *)
\* E[z^(2k)]: the number of ways to pair 2k things
NMoment(k) == IF k = 1 THEN 1 ELSE IF k = 2 THEN 3 ELSE IF k = 3 THEN 15 ELSE 105
NInside1 == R("0.682689492137086")   \* P(|z| < 1)
NInside2 == R("0.954499736103642")   \* P(|z| < 2)
NInside3 == R("0.997300203936740")   \* P(|z| < 3)
NInside35 == R("0.999534741841929")  \* P(|z| < 3.5)

(* ---- samples ------------------------------------------------------------------ *)
\* the mean over m independent values is within k standard deviations of what it estimates (compared by squares)
Estimates(sum, m, mean, var, k) ==
  LET d == RSub(RDiv(sum, R(m)), mean) IN RLe(RMul(RMul(d, d), R(m)), RAdd(RMul(R(k * k), var), R("1e-18")))
Count(v, P(_)) == Cardinality({i \in 1..Len(v) : P(v[i])})
\* as many as expected of m independent events of probability p
Frequent(c, m, p) == LET var == RMul(p, RSub(R(1), p)) IN
  RLt(RMul(R(m), var), R(30)) \/ Estimates(R(c), m, p, var, 6)

\* cols[i]: the values of component i in all draws
SimplexSample(n, m, cols) ==
  [sum      |-> \A k \in 1..m : LET x == [i \in 1..n |-> cols[i][k]] IN Within(RSum(x), R(1), Eps),
   positive |-> \A i \in 1..n : \A k \in 1..m : RLe(RNeg(Eps), cols[i][k]),
   mean     |-> \A i \in 1..n : Estimates(RSum(cols[i]), m, SMoment1(n, 1), RSub(SMoment1(n, 2), RMul(SMoment1(n, 1), SMoment1(n, 1))), 6),
   second   |-> \A i \in 1..n : Estimates(RDot(cols[i], cols[i]), m, SMoment1(n, 2), RSub(SMoment1(n, 4), RMul(SMoment1(n, 2), SMoment1(n, 2))), IF n > 5 THEN 9 ELSE 7),
   cross    |-> \A i, j \in 1..n : i >= j \/ Estimates(RDot(cols[i], cols[j]), m, SMoment2(n, 1, 1), RSub(SMoment2(n, 2, 2), RMul(SMoment2(n, 1, 1), SMoment2(n, 1, 1))), IF n > 5 THEN 9 ELSE 7),
   tails    |-> \A t \in {Q(1, 3 * n), Q(1, n), Q(2, n), Q(1, 2)} : RLe(R(1), t) \/ \A i \in 1..n :
                  LET over(x) == RLt(t, x) IN Frequent(Count(cols[i], over), m, STail(n, t))]

RECURSIVE RCountUp(_, _, _)
RCountUp(cs, i, acc) == IF i > Len(cs) THEN acc ELSE RCountUp(cs, i + 1, acc + cs[i])
RCount(v, P(_)) == RCountUp(TLCEval([i \in 1..Len(v) |-> Count(v[i], P)]), 1, 0)

\* cols[i]: the values of number i in all draws, each normal with the given mean and standard deviation
NormalSample(cols, mean, std) ==
  LET n == Len(cols)  m == Len(cols[1])
      z == TLCEval([i \in 1..n |-> [k \in 1..m |-> RSub(cols[i][k], mean)]])
      s2 == RMul(std, std)  s4 == RMul(s2, s2)
      all == m * n
      sq == TLCEval([i \in 1..n |-> VMul(z[i], z[i])])
      tot(f(_)) == RSum([i \in 1..n |-> f(i)])
      at1(i) == RSum(z[i])  at2(i) == RSum(sq[i])  at3(i) == RDot(z[i], sq[i])  at4(i) == RDot(sq[i], sq[i])
      in1(x) == RLt(x, s2)  in2(x) == RLt(x, RMul(R(4), s2))  in3(x) == RLt(x, RMul(R(9), s2))  in35(x) == RLt(x, RMul(R("12.25"), s2))  in9(x) == RLt(x, RMul(R(81), s2))  neg(x) == RLt(x, R(0))
      cnt(v, P(_)) == RSum([i \in 1..n |-> R(Count(v[i], P))])
      var(k) == R(NMoment(2 * k) - NMoment(k) * NMoment(k))     \* of z^(2k)
  IN [mean  |-> (\A i \in 1..n : Estimates(at1(i), m, R(0), s2, 6)) /\ Estimates(tot(at1), all, R(0), s2, 6),
      std   |-> (\A i \in 1..n : m < 100 \/ Estimates(at2(i), m, s2, RMul(var(1), s4), 7)) /\ Estimates(tot(at2), all, s2, RMul(var(1), s4), 6),
      skew  |-> all < 1000 \/ Estimates(tot(at3), all, R(0), RMul(R(NMoment(3)), RMul(s4, s2)), 7),
      kurt  |-> all < 2000 \/ Estimates(tot(at4), all, RMul(R(NMoment(2)), s4), RMul(var(2), RMul(s4, s4)), 8),
      shape |-> /\ Estimates(cnt(sq, in1), all, NInside1, RMul(NInside1, RSub(R(1), NInside1)), 6)
                /\ (all < 1000 \/ Estimates(cnt(sq, in2), all, NInside2, RMul(NInside2, RSub(R(1), NInside2)), 6))
                /\ Estimates(cnt(z, neg), all, R("1/2"), R("1/4"), 6),
      \* values far out: as many as there should be; some at all, where none has a probability below 1e-11; none beyond nine
      far   |-> /\ Frequent(n * m - RCount(sq, in3), all, RSub(R(1), NInside3)) /\ (all < 10000 \/ RCount(sq, in3) < all)
                /\ Frequent(n * m - RCount(sq, in35), all, RSub(R(1), NInside35)) /\ (all < 56000 \/ RCount(sq, in35) < all)
                /\ RCount(sq, in9) = all,
      independent |-> /\ Cardinality(UNION {{sq[i][k] : k \in 1..m} : i \in 1..n}) = all       \* no number twice, nor its negative
                      /\ \A i, j \in 1..n : i >= j \/ m < 100 \/ Estimates(RDot(z[i], z[j]), m, R(0), s4, 7)
                      /\ \A i \in 1..n : m < 101 \/ Estimates(RDot(SubSeq(z[i], 1, m - 1), SubSeq(z[i], 2, m)), m - 1, R(0), s4, 7)]
=============================================================================
