------------------------------- MODULE Finder -------------------------------
(***************************************************************************)
(* The life of a CoexistingPhasesFinder: construction, replacement of its  *)
(* parts, (re)initialisation and runs, as functions on a finder state      *)
(*   inter, entr, ens, cons   snapshots of the parts (module Params)       *)
(*   np, opts, kw             compartments, defaults, default options      *)
(*   w, J, lam, budget        iteration state (J0: J before the last step)  *)
(*   known                    FALSE after a run that was not observed      *)
(*   wild                     TRUE after a run whose iteration diverged    *)
(*   peak, amp                largest magnitude since the multipliers were *)
(*                            reset; growth of rounding errors (amp) in    *)
(*                            runs of which only the result was observed   *)
(* Each operation has an enabling condition; when it does not hold, the    *)
(* operation raises one of the named exceptions and the state is unchanged.*)
(***************************************************************************)
EXTENDS Kernel, Params, Integers

MergeKw(a, b) == [k \in (DOMAIN a) \cup (DOMAIN b) |-> IF k \in DOMAIN b /\ b[k] # "" THEN b[k] ELSE IF k \in DOMAIN a THEN a[k] ELSE ""]
FullBudget(np, opts) == opts.revive * np

\* exceptions raised when a part does not fit into a finder with nc components and nf features
PartErrs(kind, part, nc, nf) ==
  (IF kind \in {"e", "n"} /\ part.nc # nc THEN {"ComponentNumberError"} ELSE {})
  \cup (IF kind \in {"i", "e", "c"} /\ part.nf # nf THEN {"FeatureNumberError"} ELSE {})
ConsErrs(parts, nc, nf) == UNION {PartErrs("c", parts[c], nc, nf) : c \in 1..Len(parts)}

NewErrs(i, e, n, cs) == PartErrs("i", i, e.nc, e.nf) \cup PartErrs("n", n, e.nc, e.nf) \cup ConsErrs(cs, e.nc, e.nf)
NewFinder(i, e, n, cs, opts, kw, w) ==
  LET np == IF opts.num_part > 0 THEN opts.num_part ELSE 8 * e.nc IN
  [inter |-> i, entr |-> e, ens |-> n, cons |-> cs, np |-> np, opts |-> opts, kw |-> kw,
   w |-> w, J |-> V1(np), J0 |-> V1(np), lam |-> <<>>, fresh |-> TRUE, budget |-> FullBudget(np, opts), known |-> TRUE, wild |-> FALSE, peak |-> R(0), amp |-> R(1)]

SysOf(st) == [nf |-> st.entr.nf, nc |-> st.entr.nc, np |-> st.np, chi |-> st.inter.chi, shift |-> st.inter.shift,
   size |-> st.entr.size, feat |-> st.entr.feat, ens |-> st.ens.ens,
   cons |-> [c \in 1..Len(st.cons) |-> st.cons[c].con],
   accJ |-> st.opts.accJ, accW |-> st.opts.accW, bound |-> st.opts.bound, thr |-> st.opts.thr, scaler |-> st.opts.scaler]
LamOf(st) == IF st.fresh THEN LamInit(SysOf(st)) ELSE st.lam

ResetBudget(st)   == [st EXCEPT !.budget = FullBudget(st.np, st.opts)]
MaybeReset(st, keep) == IF keep THEN st ELSE ResetBudget(st)
ResetMultipliers(st) == [st EXCEPT !.lam = <<>>, !.fresh = TRUE, !.peak = R(0), !.amp = R(1)]
SetInter(st, i, keep) == MaybeReset([st EXCEPT !.inter = i], keep)
SetEntr(st, e, keep)  == MaybeReset([st EXCEPT !.entr = e], keep)
SetEns(st, n, keep)   == MaybeReset([st EXCEPT !.ens = n], keep)
SetCons(st, cs, keep) == MaybeReset(ResetMultipliers([st EXCEPT !.cons = cs]), keep)
Reinit(st, w) == ResetBudget(ResetMultipliers([st EXCEPT !.w = w, !.J = V1(st.np), !.J0 = V1(st.np), !.known = TRUE, !.wild = FALSE]))
FieldOK(st, arg) == arg.s = <<st.entr.nf, st.np>>
FieldFromPhis(st, arg) == MatMul(st.inter.chi, BMat(arg, st.entr.nf, st.np))

(* ---- a run: step limit and checking interval ------------------------------- *)
Tracker(max, interval) == RCeil(RDiv(max, interval))
Inner(max, interval) == LET t == Tracker(max, interval) x == RCeil(max) \div t IN IF x < 1 THEN 1 ELSE x
Total(max, interval) == Tracker(max, interval) * Inner(max, interval)
Below(e, tol) == RLt(e.e_inc, tol) /\ RLt(e.e_w, tol) /\ RLt(e.e_J, tol) /\ RLt(e.e_con, tol)
\* nobody died in the iteration that led to J
Safe(sys, e) == Cardinality(Alive(sys, e.J)) = e.nlive
Converged(sys, e, tol) == Safe(sys, e) /\ Below(e, tol)
=============================================================================
