------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* One iteration of the multi-compartment minimisation of the extended     *)
(* free energy (docs: "Numerical method"; code: flory/mcmp).               *)
(*                                                                         *)
(* A system `sys` is a record                                              *)
(*   nf, nc, np  numbers of features, components, compartments             *)
(*   chi         feature interaction matrix, nf x nf, symmetric            *)
(*   shift       the additional shift of chi in the incompressibility      *)
(*               coefficient                                               *)
(*   size, feat  per component: molecule size, index of its feature        *)
(*   ens         [kind |-> "can", phi |-> mean fractions] or               *)
(*               [kind |-> "gc", act |-> scaled activities]                *)
(*   cons        sequence of [kind |-> "loc" | "glo", Cs, Ts, ratio, kap]  *)
(*   accJ, accW, bound   acceptances and the bound on a volume step        *)
(*   thr, scaler         kill threshold, scaler of revivals                *)
(* A state is w (nf x np), J (np), lam (per constraint: local na x np,     *)
(* global na) and the remaining revive budget.                             *)
(***************************************************************************)
EXTENDS Vec

Comps(sys) == 1..sys.nc
Feats(sys) == 1..sys.nf
Parts(sys) == 1..sys.np

(* ---- life and death -------------------------------------------------- *)
Alive(sys, J) == {m \in 1..Len(J) : RLt(sys.thr, J[m])}
Dead(sys, J)  == {m \in 1..Len(J) : ~RLt(sys.thr, J[m])}
\* a comparison double precision arithmetic could decide either way; J0: volumes before the last iteration
Marginal(sys, J, J0) == \E m \in 1..Len(J) : ~REq(J0[m], R(0)) /\ Within(J[m], sys.thr, R("1e-11"))
Killed(sys, J) == TLCEval([m \in 1..Len(J) |-> IF RLt(sys.thr, J[m]) THEN J[m] ELSE R(0)])
\* the range from which the field r of a revived compartment is drawn
Centre(w, r) == RMul(Half, RAdd(RMaxOf(w[r]), RMinOf(w[r])))
HalfWidth(sys, w, r) == RMul(RMul(Half, RSub(RMaxOf(w[r]), RMinOf(w[r]))), RAbs(sys.scaler))
NeedsRevive(sys, J, budget) == budget > 0 /\ Dead(sys, J) # {}
\* the relation of a revival: every dead compartment comes back with unit volume and a field in range
ReviveVolumes(sys, J, J2) == \A m \in 1..Len(J) : REq(J2[m], IF m \in Dead(sys, J) THEN R(1) ELSE J[m])
ReviveFields(sys, J, w, w2) ==
  \A r \in 1..Len(w) : \A m \in 1..Len(J) :
    IF m \in Dead(sys, J)
    THEN Within(w2[r][m], Centre(w, r), RAdd(HalfWidth(sys, w, r), RMul(Eps, RAdd(R(1), RMaxAbs(w[r])))))
    ELSE REq(w2[r][m], w[r][m])

(* ---- fractions -------------------------------------------------------- *)
Boltz(sys, w) == TLCEval([i \in Comps(sys) |-> [m \in Parts(sys) |-> RExp(RNeg(RMul(sys.size[i], w[sys.feat[i]][m])))]])
\* single molecule partition function per volume; J with dead compartments at zero
PartFn(sys, p, J) == LET tot == RSum(J) IN TLCEval([i \in Comps(sys) |-> RDiv(RDot(p[i], J), tot)])
Phis(sys, w, J) ==
  LET p == Boltz(sys, w)
      Q == PartFn(sys, p, J)
      f == TLCEval([i \in Comps(sys) |-> IF sys.ens.kind = "can" THEN RDiv(sys.ens.phi[i], Q[i]) ELSE sys.ens.act[i]])
  IN TLCEval([i \in Comps(sys) |-> [m \in Parts(sys) |-> IF REq(J[m], R(0)) THEN R(0) ELSE RMul(f[i], p[i][m])]])
FeatPhis(sys, phi) == TLCEval([r \in Feats(sys) |-> [m \in Parts(sys) |->
   RSum([i \in Comps(sys) |-> IF sys.feat[i] = r THEN phi[i][m] ELSE R(0)])]])

(* ---- constraints ------------------------------------------------------ *)
LamInit(sys) == [c \in 1..Len(sys.cons) |->
   IF sys.cons[c].kind = "loc" THEN [a \in 1..Len(sys.cons[c].Ts) |-> V0(sys.np)] ELSE V0(Len(sys.cons[c].Ts))]
\* residues per constraint and compartment
Resid(con, ff) == LET CF == MatMul(con.Cs, ff) IN TLCEval([a \in 1..Len(con.Ts) |-> [m \in 1..Len(ff[1]) |-> RSub(CF[a][m], con.Ts[a])]])
\* potential, volume derivative, and the residue that drives the multiplier, all zero for dead compartments
ConEval(con, lam, ff, J, live) ==
  LET np == Len(J)  na == Len(con.Ts)  nf == Len(ff)
      res == Resid(con, ff)
      glob == TLCEval([a \in 1..na |-> RDot(res[a], J)])
      two == RMul(R(2), con.kap)
      eff(a, m) == IF con.kind = "loc" THEN RAdd(lam[a][m], RMul(two, res[a][m])) ELSE RAdd(lam[a], RMul(two, glob[a]))
      den(a, m) == IF con.kind = "loc" THEN RMul(res[a][m], RAdd(lam[a][m], RMul(con.kap, res[a][m]))) ELSE RMul(res[a][m], eff(a, m))
  IN [pot |-> TLCEval([r \in 1..nf |-> [m \in 1..np |-> IF live[m] THEN RSum([a \in 1..na |-> RMul(con.Cs[a][r], eff(a, m))]) ELSE R(0)]]),
      vd  |-> TLCEval([m \in 1..np |-> IF live[m] THEN RSum([a \in 1..na |-> den(a, m)]) ELSE R(0)]),
      res |-> IF con.kind = "loc"
              THEN TLCEval([a \in 1..na |-> [m \in 1..np |-> IF live[m] THEN res[a][m] ELSE R(0)]])
              ELSE TLCEval([a \in 1..na |-> RDiv(glob[a], RSum(J))])]
ConEvolve(con, lam, ev, step, live) ==
  LET s == RMul(step, con.ratio) IN
  IF con.kind = "loc"
  THEN TLCEval([a \in 1..Len(lam) |-> [m \in 1..Len(lam[a]) |-> IF live[m] THEN RRound(RAdd(lam[a][m], RMul(s, ev.res[a][m]))) ELSE R(0)]])
  ELSE TLCEval([a \in 1..Len(lam) |-> RRound(RAdd(lam[a], RMul(s, ev.res[a])))])
ConErr(con, ev) == IF con.kind = "loc" THEN MaxAbsM(ev.res) ELSE RMaxAbs(ev.res)

(* ---- the parts of one iteration --------------------------------------- *)
MinEntry(A) == RMinOf([i \in 1..Len(A) |-> RMinOf(A[i])])
IncompCoef(sys) == RAdd(RSum([r \in Feats(sys) |-> RSum(sys.chi[r])]),
                        RMul(RAdd(RNeg(MinEntry(sys.chi)), sys.shift), R(sys.nf * sys.nf)))
(* Everything derived from the state at the start of an iteration (after revival and killing: *)
(* dead compartments have J = 0): fractions, incompressibility, what the constraints contribute,  *)
(* interaction potential, volume derivatives and incompressibility coefficients, from the forms    *)
(* below or from user-defined parts.                                                              *)
QuadPot(sys, ff)     == MatMul(sys.chi, ff)
QuadVd(sys, pot, ff) == TLCEval([m \in Parts(sys) |-> RMul(Half, RDot(Col(pot, m), Col(ff, m)))])
EvalWith(sys, w, J, phi, ff, inc, ce, pot, ivd, evd, coef) ==
  LET np == sys.np  nf == sys.nf
      live == TLCEval([m \in Parts(sys) |-> ~REq(J[m], R(0))])
      nlive == Cardinality({m \in Parts(sys) : live[m]})
      cp == TLCEval([r \in Feats(sys) |-> [m \in Parts(sys) |-> RSum([c \in 1..Len(ce) |-> ce[c].pot[r][m]])]])
      xi == TLCEval([m \in Parts(sys) |-> IF live[m]
             THEN RDiv(RAdd(RMul(coef[m], inc[m]), RSum([r \in Feats(sys) |-> RSub(RSub(w[r][m], pot[r][m]), cp[r][m])])), R(nf))
             ELSE R(0)])
      star == TLCEval([r \in Feats(sys) |-> [m \in Parts(sys) |-> RAdd(RAdd(pot[r][m], cp[r][m]), xi[m])]])
      le == TLCEval([m \in Parts(sys) |-> RSub(RAdd(RAdd(RAdd(ivd[m], evd[m]), RMul(xi[m], inc[m])),
                                          RSum([c \in 1..Len(ce) |-> ce[c].vd[m]])),
                                     RDot(Col(star, m), Col(ff, m)))])
      mean == RDiv(RDot(le, J), R(nlive))
      dJ == TLCEval([m \in Parts(sys) |-> IF live[m] THEN RRound(RSub(mean, le[m])) ELSE R(0)])
      dw == TLCEval([r \in Feats(sys) |-> [m \in Parts(sys) |-> IF live[m] THEN RRound(RSub(star[r][m], w[r][m])) ELSE R(0)]])
      fac == RDiv(sys.bound, RMax(RMul(RMaxAbs(dJ), sys.accJ), sys.bound))
      J1 == TLCEval([m \in Parts(sys) |-> RAdd(J[m], RMul(RMul(fac, sys.accJ), dJ[m]))])
      sh == RSub(R(1), RDiv(RSum(J1), R(nlive)))
      J2 == TLCEval([m \in Parts(sys) |-> IF live[m] THEN RRound(RAdd(J1[m], sh)) ELSE R(0)])
      w2 == TLCEval([r \in Feats(sys) |-> [m \in Parts(sys) |-> IF live[m] THEN RRound(RAdd(w[r][m], RMul(RMul(fac, sys.accW), dw[r][m]))) ELSE R(0)]])
  IN [live |-> live, nlive |-> nlive, phi |-> phi, feat |-> ff, inc |-> inc, xi |-> xi, star |-> star, le |-> le,
      dJ |-> dJ, dw |-> dw, fac |-> fac, ce |-> ce, J0 |-> J, J |-> J2, w |-> w2,
      e_inc |-> RMaxAbs(inc), e_w |-> MaxAbsM(dw), e_J |-> RMaxAbs(dJ),
      e_con |-> RMaxAbs([c \in 1..Len(ce) |-> RMaxAbs(<<ce[c].err>>)]),
      \* magnitude of the numbers that were added up, for comparisons with double precision
      mag |-> RMaxAbs(<<MaxAbsM(w), MaxAbsM(pot), MaxAbsM(cp), RMaxAbs([m \in Parts(sys) |-> RMul(coef[m], inc[m])]), RMaxAbs(le),
                        RMaxAbs([m \in Parts(sys) |-> RMul(xi[m], inc[m])]), MaxAbsM(star), RMaxAbs(ivd)>>)]
Eval(sys, w, J, lam) ==
  LET phi == Phis(sys, w, J)
      ff == FeatPhis(sys, phi)
      live == TLCEval([m \in Parts(sys) |-> ~REq(J[m], R(0))])
      ce == TLCEval([c \in 1..Len(sys.cons) |-> LET ev == ConEval(sys.cons[c], lam[c], ff, J, live) IN
                       [pot |-> ev.pot, vd |-> ev.vd, res |-> ev.res, err |-> ConErr(sys.cons[c], ev)]])
      pot == QuadPot(sys, ff)
      evd == TLCEval([m \in Parts(sys) |-> RNeg(RSum([i \in Comps(sys) |-> RDiv(phi[i][m], sys.size[i])]))])
      coef == IncompCoef(sys)
      inc == TLCEval([m \in Parts(sys) |-> IF live[m] THEN RSub(RSum(Col(phi, m)), R(1)) ELSE R(0)])
  IN EvalWith(sys, w, J, phi, ff, inc, ce, pot, QuadVd(sys, pot, ff), evd, [m \in Parts(sys) |-> coef])
LamNext(sys, lam, e) == TLCEval([c \in 1..Len(sys.cons) |->
   ConEvolve(sys.cons[c], lam[c], e.ce[c], RMul(e.fac, sys.accW), e.live)])

(* ---- thermodynamics of the result --------------------------------------- *)
FreeEn(sys, phi) == RAdd(RSum([i \in Comps(sys) |-> IF REq(phi[i], R(0)) THEN R(0) ELSE RDiv(RMul(phi[i], RLn(phi[i])), sys.size[i])]),
                         RMul(Half, RDot(phi, [i \in Comps(sys) |-> RSum([j \in Comps(sys) |-> RMul(sys.chi[sys.feat[i]][sys.feat[j]], phi[j])])])))
ChemPots(sys, phi) ==
  LET cf == TLCEval([i \in Comps(sys) |-> RSum([j \in Comps(sys) |-> RMul(sys.chi[sys.feat[i]][sys.feat[j]], phi[j])])])
      base == RNeg(RAdd(RMul(Half, RDot(phi, cf)), RSum([i \in Comps(sys) |-> RDiv(phi[i], sys.size[i])])))
  IN TLCEval([i \in Comps(sys) |-> RAdd(RAdd(base, cf[i]), RDiv(RAdd(RLn(phi[i]), R(1)), sys.size[i]))])
=============================================================================
