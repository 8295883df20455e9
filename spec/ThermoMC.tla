------------------------------ MODULE ThermoMC ------------------------------
(***************************************************************************)
(* Laws of thermodynamics that module Thermo has to obey, checked by TLC   *)
(* for every mixture and composition of a grid (derivatives by difference  *)
(* quotients in exact arithmetic).                                         *)
(***************************************************************************)
EXTENDS Thermo, Integers
CONSTANT Fineness
VARIABLES mix, phi
vars == <<mix, phi>>
Q(s) == [i \in 1..Len(s) |-> R(s[i])]
QM(s) == [i \in 1..Len(s) |-> Q(s[i])]
Mixtures == <<
  Mixture(QM(<<<<"0", "3">>, <<"3", "0">>>>), Q(<<"1", "1">>)),
  Mixture(QM(<<<<"-1", "5/2">>, <<"5/2", "2">>>>), Q(<<"1/2", "10">>)),
  Mixture(QM(<<<<"0", "4", "1">>, <<"4", "0", "-2">>, <<"1", "-2", "3">>>>), Q(<<"1", "2", "1/3">>)),
  Mixture(QM(<<<<"-6", "0", "1">>, <<"0", "-5", "2">>, <<"1", "2", "-7">>>>), Q(<<"3", "1", "1">>)),
  Mixture(QM(<<<<"0", "2", "2", "2">>, <<"2", "0", "2", "2">>, <<"2", "2", "0", "2">>, <<"2", "2", "2", "0">>>>), Q(<<"1", "5", "1", "2">>)),
  [Mixture(QM(<<<<"0", "2">>, <<"2", "1">>>>), Q(<<"2", "1">>)) EXCEPT !.cub = Q(<<"-3", "1/2">>)] >>
F(a) == RDiv(R(a), R(Fineness))
Init == /\ mix \in Range1(TLCEval(Mixtures))
        \* fractions on a grid, each positive, not necessarily adding up to one
        /\ \E p \in [1..N(mix) -> 1..(Fineness - 1)] :
             LET s[i \in 0..N(mix)] == IF i = 0 THEN 0 ELSE s[i - 1] + p[i] IN s[N(mix)] <= Fineness + 1 /\ phi = [i \in 1..N(mix) |-> F(p[i])]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

h == R("1e-14")
Fine(x) == RLe(RAbs(x), R("1e-30"))
Rough(x) == RLe(RAbs(x), R("1e-10"))
Moved(i, s) == [phi EXCEPT ![i] = RAdd(@, RMul(R(s), h))]
Ids == 1..N(mix)
SlopeF(i) == RDiv(RSub(FE(mix, Moved(i, 1)), FE(mix, Moved(i, -1))), RMul(R(2), h))
\* the Jacobian is the derivative of the free energy, the Hessian that of the Jacobian
JacobianIsDerivative == Strict(LET j == Jac(mix, phi) IN \A i \in Ids : Rough(RSub(SlopeF(i), j[i])))
HessianIsDerivative == Strict(LET H == Hess(mix, phi) IN \A i \in Ids :
   LET a == Jac(mix, Moved(i, 1)) b == Jac(mix, Moved(i, -1)) IN \A j \in Ids : Rough(RSub(RDiv(RSub(a[j], b[j]), RMul(R(2), h)), H[j][i])))
HessianSymmetric == Strict(LET H == Hess(mix, phi) IN \A i, j \in Ids : REq(H[i][j], H[j][i]))
\* elimination of component k: derivative along e_i - e_k
Along(k, i, s) == [phi EXCEPT ![i] = RAdd(@, RMul(R(s), h)), ![k] = RSub(@, RMul(R(s), h))]
ReducedIsDerivative == Strict(\A k \in Ids : LET j == JacRed(mix, phi, k)  o == Others(N(mix), k) IN \A a \in 1..Len(o) :
   Rough(RSub(RDiv(RSub(FE(mix, Along(k, o[a], 1)), FE(mix, Along(k, o[a], -1))), RMul(R(2), h)), j[a])))
ReducedHessian == Strict(\A k \in Ids : LET H == HessRed(mix, phi, k)  o == Others(N(mix), k) IN \A a, b \in 1..Len(o) :
   Rough(RSub(RDiv(RSub(JacRed(mix, Along(k, o[a], 1), k)[b], JacRed(mix, Along(k, o[a], -1), k)[b]), RMul(R(2), h)), H[a][b])))
\* Euler: f + (1 - sum) terms: sum phi_i mu_i = f when the fractions add up to one
Euler == Strict(REq(RSum(phi), R(1)) => Fine(RSub(RDot(phi, Mu(mix, phi)), FE(mix, phi))))
ExchangeIsDifference == Strict(\A k \in Ids : LET m == Mu(mix, phi) x == Exchange(mix, phi, k) IN \A i \in Ids : Fine(RSub(x[i], RSub(m[i], m[k]))))
\* Gibbs-Duhem: sum phi_i dmu_i = 0 along incompressible directions
GibbsDuhem == Strict(REq(RSum(phi), R(1)) => \A i, k \in Ids : i = k \/
   LET a == Mu(mix, Along(k, i, 1)) b == Mu(mix, Along(k, i, -1)) IN
   Rough(RDiv(RSum([c \in Ids |-> RMul(phi[c], RSub(a[c], b[c]))]), RMul(R(2), h))))
\* stability does not depend on which component is eliminated, nor on the order of components
Perm == [i \in Ids |-> N(mix) + 1 - i]
Inertia == Strict(
   LET m2 == [chi |-> [i \in Ids |-> [j \in Ids |-> mix.chi[Perm[i]][Perm[j]]]], size |-> [i \in Ids |-> mix.size[Perm[i]]], cub |-> [i \in Ids |-> mix.cub[Perm[i]]]]
       p2 == [i \in Ids |-> phi[Perm[i]]]
       n == NumNegative(HessRed(mix, phi, 1))  full == NumNegative(Hess(mix, phi)) IN
   /\ \A k \in Ids : NumNegative(HessRed(mix, phi, k)) = n
   /\ NumNegative(HessRed(m2, p2, 1)) = n /\ NumNegative(Hess(m2, p2)) = full
   /\ n <= full /\ full <= n + 1              \* Cauchy interlacing
   /\ n \in Unstable(mix, phi, TRUE) /\ full \in Unstable(mix, phi, FALSE))
\* an ideal mixture is stable
IdealStable == Strict(LET m2 == Mixture([i \in Ids |-> [j \in Ids |-> R(0)]], mix.size) IN NumNegative(Hess(m2, phi)) = 0 /\ NumNegative(HessRed(m2, phi, 1)) = 0)
=============================================================================
