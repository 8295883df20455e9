------------------------------- MODULE Thermo -------------------------------
(* Flory-Huggins free energy density and its derivatives.  A mixture is a    *)
(* record [chi (n x n), size (n), cub (n)]; a composition is a sequence of   *)
(* n Num.  cub: coefficients of a cubic energy (zero but for user-defined    *)
(* interactions).                                                            *)
EXTENDS Vec

N(mix) == Len(mix.size)
Mixture(chi, size) == [chi |-> chi, size |-> size, cub |-> V0(Len(size))]
Cube(x) == RMul(x, RMul(x, x))
XLogX(x) == IF REq(x, R(0)) THEN R(0) ELSE RMul(x, RLn(x))
\* f = sum_i phi_i ln(phi_i) / l_i + 1/2 sum_ij chi_ij phi_i phi_j
FE(mix, phi) == RAdd(RSum([i \in 1..N(mix) |-> RDiv(XLogX(phi[i]), mix.size[i])]),
                     RAdd(RMul(Half, RDot(phi, MatVec(mix.chi, phi))), RSum([i \in 1..N(mix) |-> RMul(mix.cub[i], Cube(phi[i]))])))
Jac(mix, phi) == LET c == MatVec(mix.chi, phi) IN
                 TLCEval([i \in 1..N(mix) |-> RAdd(RAdd(c[i], RMul(RMul(R(3), mix.cub[i]), RMul(phi[i], phi[i]))), RDiv(RAdd(RLn(phi[i]), R(1)), mix.size[i]))])
HessEntry(mix, phi, i, j) == RAdd(mix.chi[i][j], IF i = j THEN RAdd(RMul(RMul(R(6), mix.cub[i]), phi[i]), RDiv(R(1), RMul(mix.size[i], phi[i]))) ELSE R(0))
Hess(mix, phi) == TLCEval([i \in 1..N(mix) |-> [j \in 1..N(mix) |-> HessEntry(mix, phi, i, j)]])
\* component k eliminated by phi_k = const - sum of the others
Others(n, k) == [i \in 1..(n - 1) |-> IF i < k THEN i ELSE i + 1]
JacRed(mix, phi, k) == LET j == Jac(mix, phi) o == Others(N(mix), k) IN
                 TLCEval([a \in 1..Len(o) |-> RSub(j[o[a]], j[k])])
HessRed(mix, phi, k) == LET h == Hess(mix, phi) o == Others(N(mix), k) IN
                 TLCEval([a \in 1..Len(o) |-> [b \in 1..Len(o) |->
                    RAdd(RSub(RSub(h[o[a]][o[b]], h[k][o[b]]), h[o[a]][k]), h[k][k])]])
\* phi . df/dphi, finite when fractions vanish
PhiJac(mix, phi) == RAdd(RSum([i \in 1..N(mix) |-> RDiv(RAdd(XLogX(phi[i]), phi[i]), mix.size[i])]),
                           RAdd(RDot(phi, MatVec(mix.chi, phi)), RMul(R(3), RSum([i \in 1..N(mix) |-> RMul(mix.cub[i], Cube(phi[i]))]))))
Mu(mix, phi) == LET j == Jac(mix, phi) b == RSub(FE(mix, phi), PhiJac(mix, phi)) IN
                TLCEval([i \in 1..N(mix) |-> RAdd(b, j[i])])
Exchange(mix, phi, k) == LET j == Jac(mix, phi) IN TLCEval([i \in 1..N(mix) |-> IF i = k THEN R(0) ELSE RSub(j[i], j[k])])
Pressure(mix, phi, k) == RNeg(Mu(mix, phi)[k])

(* Sylvester's law of inertia: the number of negative eigenvalues of a symmetric   *)
(* matrix is the number of negative pivots of a symmetric elimination.             *)
MatShift(A, s) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN RAdd(A[i][j], s) ELSE A[i][j]]])
Drop(A, p) ==   \* the Schur complement of the pivot A[p][p]
  LET o == Others(Len(A), p) IN
  TLCEval([a \in 1..Len(o) |-> TLCEval([b \in 1..Len(o) |-> RSub(A[o[a]][o[b]], RDiv(RMul(A[o[a]][p], A[p][o[b]]), A[p][p]))])])
Fold(A, p, q) ==   \* congruence: row and column q added to row and column p
  TLCEval([a \in 1..Len(A) |-> TLCEval([b \in 1..Len(A) |->
     LET x(u, v) == A[u][v] IN
     IF a = p /\ b = p THEN RAdd(RAdd(x(p, p), x(q, q)), RMul(R(2), x(p, q)))
     ELSE IF a = p THEN RAdd(x(p, b), x(q, b)) ELSE IF b = p THEN RAdd(x(a, p), x(a, q)) ELSE x(a, b)])])
RECURSIVE NumNegative(_)
NumNegative(A) ==
  LET n == Len(A)
      big == RMaxOf([i \in 1..n |-> RAbs(A[i][i])])
  IN IF n = 0 THEN 0
     ELSE IF ~REq(big, R(0)) THEN LET p == CHOOSE i \in 1..n : REq(RAbs(A[i][i]), big) IN
          (IF RLt(A[p][p], R(0)) THEN 1 ELSE 0) + NumNegative(Drop(A, p))
     ELSE LET nz == {x \in (1..n) \X (1..n) : ~REq(A[x[1]][x[2]], R(0))} IN
          IF nz = {} THEN 0 ELSE LET x == CHOOSE y \in nz : TRUE IN NumNegative(Fold(A, x[1], x[2]))
\* possible answers of a double precision computation
NumNegativeSet(A) == LET e == RMul(R("1e-8"), RAdd(R(1), MaxAbsM(A))) IN
   NumNegative(MatShift(A, e))..NumNegative(MatShift(A, RNeg(e)))
Unstable(mix, phi, conserved) == NumNegativeSet(IF conserved THEN HessRed(mix, phi, 1) ELSE Hess(mix, phi))
SpinodalMargin(mix, phi) == NumNegative(MatShift(HessRed(mix, phi, 1), R("1/2"))) > 0
=============================================================================
