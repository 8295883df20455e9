------------------------------ MODULE NumTest ------------------------------
(* Agreement of Num (the Java override) with NumRef on a grid, and the      *)
(* functional equations of exp and ln.                                      *)
EXTENDS Num, NumRef, TLC
VARIABLE x
Grid == {Mk(n, d) : n \in -7..7, d \in 1..5}
S(p) == RDiv(R(p[1]), R(p[2]))
Tiny == RDiv(R(1), R("10000000000000000000000000000000000000000"))  \* 10^-40
Close(a, b) == RLe(RAbs(RSub(a, b)), Tiny)
Init == x \in Grid
Next == UNCHANGED x
Agree == \A y \in Grid :
  /\ RAdd(S(x), S(y)) = S(PAdd(x, y))
  /\ RSub(S(x), S(y)) = S(PSub(x, y))
  /\ RMul(S(x), S(y)) = S(PMul(x, y))
  /\ (y[1] # 0) => RDiv(S(x), S(y)) = S(PDiv(x, y))
  /\ RLt(S(x), S(y)) = PLt(x, y)
  /\ RLe(S(x), S(y)) = PLe(x, y)
  /\ REq(S(x), S(y)) = (x = y)
  /\ RMax(S(x), S(y)) = (IF PLe(x, y) THEN S(y) ELSE S(x))
  /\ RMin(S(x), S(y)) = (IF PLe(x, y) THEN S(x) ELSE S(y))
  /\ RSum(<<S(x), S(y)>>) = RAdd(S(x), S(y))
  /\ RDot(<<S(x), S(y)>>, <<S(y), S(y)>>) = RAdd(RMul(S(x), S(y)), RMul(S(y), S(y)))
  /\ RMaxAbs(<<S(x), S(y)>>) = RMax(RAbs(S(x)), RAbs(S(y)))
  /\ RNeg(S(x)) = RSub(R(0), S(x))
  \* exp(x + y) = exp(x) exp(y), d/dx exp = exp at first order
  /\ Close(RExp(RAdd(S(x), S(y))), RMul(RExp(S(x)), RExp(S(y))))
  /\ (x[1] > 0 /\ y[1] > 0) => Close(RLn(RMul(S(x), S(y))), RAdd(RLn(S(x)), RLn(S(y))))
  /\ Close(RLn(RExp(S(x))), S(x))
  \* 1 + h <= exp(h) <= 1 + h + h^2 for |h| <= 1 pins down the base
  /\ LET h == RDiv(S(x), R(1000)) IN
       /\ RLe(RAdd(R(1), h), RExp(h))
       /\ RLe(RExp(h), RAdd(RAdd(R(1), h), RMul(h, h)))
Specials ==
  /\ RExp(R(0)) = R(1) /\ RLn(R(1)) = R(0) /\ RLn(R(0)) = "-inf" /\ RNaN(RLn(R(-1)))
  /\ ~RFin("nan") /\ ~RFin("inf") /\ ~RLe("nan", R(1)) /\ ~RLe(R(1), "nan") /\ ~REq("nan", "nan")
  /\ RLt(R(5), "inf") /\ RLt("-inf", R(-5)) /\ RNaN(RSub("inf", "inf")) /\ RDiv(R(1), R(0)) = "inf"
  /\ RCeil(S(<<5, 2>>)) = 3 /\ RCeil(S(<<-5, 2>>)) = -2 /\ RCeil(R(4)) = 4
  /\ R("0.25") = S(<<1, 4>>) /\ R("1e-3") = S(<<1, 1000>>)
=============================================================================
