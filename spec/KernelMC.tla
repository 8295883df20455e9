------------------------------ MODULE KernelMC ------------------------------
(***************************************************************************)
(* A closed model of the life of a run: small systems, initial fields on a *)
(* grid, and iterations of module Kernel in which the fields of revived    *)
(* compartments are any of the extreme or middle values that a revival may *)
(* draw.  TLC explores it exhaustively up to Depth iterations and checks   *)
(* the consequences that the properties rely on, for instance that the     *)
(* reported errors bound the differences of the chemical potentials.       *)
(***************************************************************************)
EXTENDS Kernel, Integers
CONSTANTS Depth, Width      \* iterations, columns of the grid of initial fields
VARIABLES sys, w, J, lam, budget, n, e, how
vars == <<sys, w, J, lam, budget, n, e, how>>

Q(s) == [i \in 1..Len(s) |-> R(s[i])]
QM(s) == [i \in 1..Len(s) |-> Q(s[i])]
Base == [nf |-> 2, nc |-> 2, np |-> 2, chi |-> QM(<<<<"0", "3">>, <<"3", "-1/2">>>>), shift |-> R("1/2"), size |-> Q(<<"1", "2">>), feat |-> <<1, 2>>,
         ens |-> [kind |-> "can", phi |-> Q(<<"1/4", "3/4">>), act |-> <<>>], cons |-> <<>>, accJ |-> R("1/2"), accW |-> R("1/4"), bound |-> R("9/10"), thr |-> R(0), scaler |-> R(1)]
Gc == [kind |-> "gc", phi |-> <<>>, act |-> Q(<<"1/3", "1/2">>)]
Loc == [kind |-> "loc", Cs |-> QM(<<<<"1", "-1/2">>>>), Ts |-> Q(<<"1/5">>), ratio |-> R(1), kap |-> R("1/2")]
Glo == [kind |-> "glo", Cs |-> QM(<<<<"1", "0">>, <<"-1/3", "1">>>>), Ts |-> Q(<<"1/5", "-1/7">>), ratio |-> R(2), kap |-> R("1/4")]
Systems == <<
  Base,
  [Base EXCEPT !.np = 3, !.thr = R("3/10"), !.bound = R(2)],
  [Base EXCEPT !.np = 3, !.nc = 3, !.feat = <<1, 1, 2>>, !.size = Q(<<"1", "3", "1/2">>), !.ens.phi = Q(<<"1/2", "1/8", "3/8">>), !.thr = R("1/5"), !.accJ = R(1)],
  [Base EXCEPT !.ens = Gc, !.accJ = R("1/10")],
  [Base EXCEPT !.np = 3, !.ens = Gc, !.accJ = R(1), !.thr = R("2/5")],
  [Base EXCEPT !.cons = <<Loc>>, !.thr = R("1/10")],
  [Base EXCEPT !.np = 3, !.cons = <<Glo>>, !.thr = R("1/10")],
  [Base EXCEPT !.cons = <<Glo, Loc>>, !.ens = Gc, !.scaler = R(-2)] >>
Columns == {Q(<<"0", "0">>), Q(<<"1", "-1">>), Q(<<"-3/2", "1/2">>), Q(<<"3", "2">>)}
Grid == LET f == CHOOSE g \in [1..4 -> Columns] : \A a, b \in 1..4 : a # b => g[a] # g[b] IN {f[a] : a \in 1..Width}

Nothing == <<>>
Init == /\ sys \in Range1(TLCEval(Systems))
        /\ \E cols \in [1..sys.np -> Grid] : w = [r \in 1..2 |-> [m \in 1..sys.np |-> cols[m][r]]]
        /\ J = V1(sys.np) /\ lam = LamInit(sys) /\ budget \in {0, 1, 4} /\ n = 0 /\ e = Nothing /\ how = "start"
\* the fields of revived compartments: the ends and the middle of the range
Revived(s) == TLCEval([r \in Feats(sys) |-> [m \in Parts(sys) |->
      IF m \in Dead(sys, J) THEN RAdd(Centre(w, r), RMul(R(s[m]), HalfWidth(sys, w, r))) ELSE w[r][m]]])
Step(w0, J0, b, kind) ==
  \E x \in {Strict(Eval(sys, w0, J0, lam))} :
    /\ e' = x /\ w' = x.w /\ J' = x.J /\ budget' = b /\ n' = n + 1 /\ how' = kind /\ UNCHANGED sys
    /\ lam' = LamNext(sys, lam, x)
Iterate == /\ ~NeedsRevive(sys, J, budget)
           /\ Step(w, Killed(sys, J), budget, "plain")
ReviveStep == /\ NeedsRevive(sys, J, budget)
          /\ \E s \in [Dead(sys, J) -> {-1, 0, 1}] :
               LET w1 == Revived(s)  J1 == [m \in Parts(sys) |-> IF m \in Dead(sys, J) THEN R(1) ELSE J[m]] IN
               /\ ReviveVolumes(sys, J, J1) /\ ReviveFields(sys, J, w, w1)
               /\ Step(w1, J1, budget - Cardinality(Dead(sys, J)), "revived")
Next == n < Depth /\ (Iterate \/ ReviveStep)
Spec == Init /\ [][Next]_vars

(* ---- consequences -------------------------------------------------------------- *)
Ran == n > 0
Fine(x) == RLe(RAbs(x), R("1e-30"))
Live == {m \in Parts(sys) : e.live[m]}
\* C02: the volume-weighted mean composition is the prescribed one in every iteration
MeanComposition == Ran /\ sys.ens.kind = "can" => \A i \in Comps(sys) : Fine(RSub(RDiv(RDot(e.phi[i], e.J0), RSum(e.J0)), sys.ens.phi[i]))
\* C06: volumes of the living have mean one, the dead have none, one lives
Volumes == Ran => /\ Fine(RSub(RSum(J), R(Cardinality(Live))))
                  /\ \A m \in Parts(sys) : m \in Live \/ (REq(J[m], R(0)) /\ \A r \in Feats(sys) : REq(w[r][m], R(0)))
                  /\ Alive(sys, J) # {}
\* C06: the step of the volumes respects its bound, before the volumes are put back to mean one
StepBound == Ran => \A m \in Live : RLe(RAbs(RMul(RMul(e.fac, sys.accJ), e.dJ[m])), RAdd(sys.bound, R("1e-30")))
\* C07
Budget == /\ budget > 0 - sys.np
          /\ how = "revived" => Live = Parts(sys)
DeadEmpty == Ran => \A m \in Parts(sys) \ Live : \A i \in Comps(sys) : REq(e.phi[i][m], R(0))
BudgetRule == [][budget' = IF NeedsRevive(sys, J, budget) THEN budget - Cardinality(Dead(sys, J)) ELSE budget]_vars
\* C01, C03: chemical potentials follow from the steps that remain to be done:
\* mu_i = const_i + dw_i - dJ - (what constraints contribute); global constraints contribute the same everywhere
Mus(m) == ChemPots(sys, Col(e.phi, m))
Contribution(m) == TLCEval([i \in Comps(sys) |-> RSum([c \in 1..Len(e.ce) |->
     RAdd(RNeg(e.ce[c].pot[sys.feat[i]][m]), RSub(RDot(Col(e.ce[c].pot, m), Col(e.feat, m)), e.ce[c].vd[m]))])])
Rest(m) == LET c == Contribution(m) IN TLCEval([i \in Comps(sys) |-> RAdd(RSub(e.dw[sys.feat[i]][m], e.dJ[m]), c[i])])
GibbsDuhem == Ran => Strict(\A m, p \in Live : m >= p \/
   LET a == Mus(m) b == Mus(p) x == Rest(m) y == Rest(p) IN \A i \in Comps(sys) : Fine(RSub(RSub(a[i], b[i]), RSub(x[i], y[i]))))
NoLocal == \A c \in 1..Len(sys.cons) : sys.cons[c].kind = "glo"
ErrorsBoundPotentials == Ran /\ NoLocal => Strict(
   LET tol == RMax(e.e_w, e.e_J) IN \A m, p \in Live : m >= p \/
   LET a == Mus(m) b == Mus(p) IN \A i \in Comps(sys) : RLe(RAbs(RSub(a[i], b[i])), RAdd(RMul(R(4), tol), R("1e-30"))))
Prescribed == Ran /\ sys.ens.kind = "gc" /\ sys.cons = <<>> => Strict(
   LET tol == RMax(e.e_w, e.e_J)  c(m, i) == RSub(Mus(m)[i], RDiv(RAdd(RLn(sys.ens.act[i]), R(1)), sys.size[i])) IN
   \A m, p \in Live : \A i, j \in Comps(sys) : RLe(RAbs(RSub(c(m, i), c(p, j))), RAdd(RMul(R(4), tol), R("1e-30"))))
\* C04: the residue of a global constraint is that of the volume-weighted mean
GlobalResidue == Ran => \A c \in 1..Len(sys.cons) : sys.cons[c].kind = "glo" => \A a \in 1..Len(sys.cons[c].Ts) :
   LET mean == TLCEval([r \in Feats(sys) |-> RDiv(RDot(e.feat[r], e.J0), RSum(e.J0))]) IN
   Fine(RSub(e.ce[c].res[a], RSub(RDot(sys.cons[c].Cs[a], mean), sys.cons[c].Ts[a])))
\* C08: dead compartments of the result become copies of living ones, which halves their volumes
RECURSIVE Copies(_, _, _)
Copies(v, rows, dead) ==
  IF dead = {} THEN {[v |-> v, rows |-> rows]}
  ELSE LET m == CHOOSE x \in dead : TRUE IN
       UNION {Copies([v EXCEPT ![p] = RMul(Half, @), ![m] = RMul(Half, v[p])], [rows EXCEPT ![m] = rows[p]], dead \ {m}) : p \in Parts(sys) \ dead}
CopiesKeepMixture == Ran => Strict(
   LET dead == Dead(sys, J)  v0 == Killed(sys, J) IN
   \A r \in Copies(v0, [m \in Parts(sys) |-> m], dead) :
     /\ \A m \in Parts(sys) : RLt(R(0), r.v[m]) /\ r.rows[m] \notin dead
     /\ \A p \in Parts(sys) \ dead : Fine(RSub(RSum([m \in Parts(sys) |-> IF r.rows[m] = p THEN r.v[m] ELSE R(0)]), v0[p])))
\* C18: a component split into two identical ones changes nothing
SplitSys == [sys EXCEPT !.nc = @ + 1, !.size = Append(@, @[1]), !.feat = Append(@, @[1]),
   !.ens = IF @.kind = "can" THEN [@ EXCEPT !.phi = Append([@ EXCEPT ![1] = RMul(R("1/3"), @)], RMul(R("2/3"), @[1]))]
           ELSE [@ EXCEPT !.act = Append([@ EXCEPT ![1] = RMul(R("1/3"), @)], RMul(R("2/3"), @[1]))]]
Splitting == ~NeedsRevive(sys, J, budget) => Strict(
   LET J0 == Killed(sys, J)  a == Eval(sys, w, J0, lam)  b == Eval(SplitSys, w, J0, lam) IN
   /\ \A m \in Parts(sys) : Fine(RSub(a.J[m], b.J[m])) /\ \A r \in Feats(sys) : Fine(RSub(a.w[r][m], b.w[r][m])) /\ Fine(RSub(a.feat[r][m], b.feat[r][m]))
   /\ Fine(RSub(a.e_inc, b.e_inc)) /\ Fine(RSub(a.e_w, b.e_w)) /\ Fine(RSub(a.e_J, b.e_J)) /\ Fine(RSub(a.e_con, b.e_con)))
\* C06: the order of compartments is irrelevant, and so is a constant added to all fields (canonical)
Swap(v) == [v EXCEPT ![1] = v[2], ![2] = v[1]]
SwapLam == [c \in 1..Len(sys.cons) |-> IF sys.cons[c].kind = "loc" THEN [a \in 1..Len(lam[c]) |-> Swap(lam[c][a])] ELSE lam[c]]
Symmetric == ~NeedsRevive(sys, J, budget) => Strict(
   LET J0 == Killed(sys, J)  a == Eval(sys, w, J0, lam)  b == Eval(sys, [r \in Feats(sys) |-> Swap(w[r])], Swap(J0), SwapLam) IN
   \A m \in Parts(sys) : Fine(RSub(a.J[m], Swap(b.J)[m])) /\ \A r \in Feats(sys) : Fine(RSub(a.w[r][m], Swap(b.w[r])[m])))
Gauge == ~NeedsRevive(sys, J, budget) /\ sys.ens.kind = "can" => Strict(
   LET J0 == Killed(sys, J)  a == Eval(sys, w, J0, lam)
       b == Eval(sys, [r \in Feats(sys) |-> [m \in Parts(sys) |-> RAdd(w[r][m], R("5/4"))]], J0, lam) IN
   \A m \in Parts(sys) : Fine(RSub(a.J[m], b.J[m])) /\ \A r \in Feats(sys) : Fine(RSub(a.dw[r][m], b.dw[r][m])))
=============================================================================
