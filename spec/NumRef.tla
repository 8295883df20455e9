------------------------------ MODULE NumRef -------------------------------
(* Reference meaning of Num on pairs <<n, d>>, d > 0, in lowest terms.      *)
EXTENDS Integers, Sequences

AbsI(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Mk(n, d) == LET g == Gcd(AbsI(n), AbsI(d)) s == IF d < 0 THEN -1 ELSE 1
            IN <<s * (n \div g), s * (d \div g)>>
PAdd(p, q) == Mk(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
PSub(p, q) == Mk(p[1] * q[2] - q[1] * p[2], p[2] * q[2])
PMul(p, q) == Mk(p[1] * q[1], p[2] * q[2])
PDiv(p, q) == Mk(p[1] * q[2], p[2] * q[1])
PLt(p, q)  == p[1] * q[2] < q[1] * p[2]
PLe(p, q)  == p[1] * q[2] <= q[1] * p[2]
=============================================================================
