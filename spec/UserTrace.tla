------------------------------ MODULE UserTrace ------------------------------
(***************************************************************************)
(* Finders with user-defined parts (C20).  The parts return arbitrary      *)
(* values, recorded together with the arguments they were called with; the *)
(* specification follows the iteration with what they returned.            *)
(***************************************************************************)
EXTENDS FinderTrace, Protocol

Merge3(a, b, c, k, default) == IF k \in DOMAIN c THEN c[k] ELSE IF k \in DOMAIN b THEN b[k] ELSE IF k \in DOMAIN a THEN a[k] ELSE default
\* options a part of each kind accepts
Accepts(k) == CASE k = "i" -> {"alpha", "shared"} [] k = "e" -> {"beta", "shared"} [] k = "n" -> {"shared"} [] k = "c" -> {"gamma", "shared"}
KwOK(comp, a, b, c) == DOMAIN comp.kw = Accepts(comp.k) /\ \A x \in Accepts(comp.k) : comp.kw[x] = Merge3(a, b, c, x, "1")
Of(comps, o) == {j \in 1..Len(comps) : comps[j].o = o}
Last1(S) == CHOOSE x \in S : \A y \in S : y <= x
IdOf(comps, o) == comps[Last1(Of(comps, o))].id
\* a name may occur several times; its last compilations belong to its occurrences in this order
RECURSIVE Nth(_, _)
Nth(S, k) == LET a == CHOOSE x \in S : \A y \in S : x <= y IN IF k = 1 THEN a ELSE Nth(S \ {a}, k - 1)
Times(names, o, upto) == Cardinality({j \in 1..upto : names[j] = o})
IdAt(comps, names, k) == LET S == Of(comps, names[k])  d == Times(names, names[k], Len(names)) - Times(names, names[k], k) IN
   IF Cardinality(S) <= d THEN "" ELSE comps[Nth(S, Cardinality(S) - d)].id
MaskOf(sys, J) == TLCEval([m \in 1..Len(J) |-> IF RLt(R(0), J[m]) THEN R(1) ELSE R(0)])

Initialised(ev, ids, np) == \A c \in Range1(ids) : \E k \in 1..Len(ev.inits) : ev.inits[k].id = c
InitArgs(ev, np) == \A k \in 1..Len(ev.inits) : ev.inits[k].np = np
NotInitialised(ev, ids) == \A k \in 1..Len(ev.inits) : ev.inits[k].id \notin Range1(ids)

USys(st) == [nf |-> st.nf, nc |-> st.nc, np |-> st.np, ens |-> [kind |-> "user"], cons |-> <<>>, size |-> <<R(1)>>,
             accJ |-> st.opts.accJ, accW |-> st.opts.accW, bound |-> st.opts.bound, thr |-> st.opts.thr, scaler |-> st.opts.scaler]
UNew(ev) ==
  IF ev.exc # <<>> THEN Cur({"user-defined-parts-accepted"})
  ELSE LET names == <<ev.i, ev.e, ev.n>> \o ev.c
           made == \A k \in 1..Len(names) : Of(ev.comps, names[k]) # {}
           opts == NumOpts(ev.opts)
           shape == IsMat(ev.w, ev.nf, opts.num_part)
           ids == IF made THEN [k \in 1..Len(ev.c) |-> IdAt(ev.comps, ev.c, k)] ELSE <<>>
           bad == Cl({"C20"}, "parts-are-compiled", made) \cup Cl({"C20"}, "shape-of-the-fields", shape)
             \cup Cl({"C20"}, "options-reach-the-parts", \A k \in 1..Len(ev.comps) : KwOK(ev.comps[k], ev.kw, << >>, << >>))
             \cup Cl({"C20"}, "constraints-initialised", Initialised(ev, ids, opts.num_part))
             \cup Cl({"C20"}, "initialised-with-the-number-of-compartments", InitArgs(ev, opts.num_part))
       IN ToFnd(bad, IF made /\ shape THEN Put(fnd, ev.f, [i |-> IdOf(ev.comps, ev.i), e |-> IdOf(ev.comps, ev.e), n |-> IdOf(ev.comps, ev.n), c |-> ids, kw |-> ev.kw,
                 nf |-> ev.nf, nc |-> ev.nc, np |-> opts.num_part, opts |-> opts, w |-> ev.w, J |-> V1(opts.num_part), J0 |-> V1(opts.num_part), budget |-> FullBudget(opts.num_part, opts), known |-> TRUE])
                     ELSE fnd, stat)
USet(ev) ==
  LET st == fnd[ev.f]
      made == \A k \in 1..Len(ev.o) : Of(ev.comps, ev.o[k]) # {}
      ids == IF made THEN [k \in 1..Len(ev.o) |-> IdAt(ev.comps, ev.o, k)] ELSE <<>>
      kwis(o) == IF ev.kwi = <<>> THEN {<< >>} ELSE {ev.kwi[k] : k \in {k \in 1..Len(ev.o) : ev.o[k] = o}}
      st1 == IF ~made THEN st ELSE CASE ev.part = "i" -> [st EXCEPT !.i = ids[1]] [] ev.part = "e" -> [st EXCEPT !.e = ids[1]] [] ev.part = "n" -> [st EXCEPT !.n = ids[1]] [] ev.part = "c" -> [st EXCEPT !.c = ids]
      st2 == IF ev.keep THEN st1 ELSE ResetBudget(st1)
      bad == Cl({"C20"}, "user-defined-part-accepted", ev.exc = <<>> /\ made)
        \cup Cl({"C20"}, "options-reach-the-parts", \A k \in 1..Len(ev.comps) : \E x \in kwis(ev.comps[k].o) : KwOK(ev.comps[k], st.kw, ev.kw, x))
        \cup Cl({"C20"}, "constraints-initialised", IF ev.part = "c" THEN Initialised(ev, ids, st.np) ELSE NotInitialised(ev, st.c))
        \cup Cl({"C20"}, "initialised-with-the-number-of-compartments", InitArgs(ev, st.np))
        \cup Cl({"C20"}, "fields-after-operation", EqM(ev.w, st.w))
  IN ToFnd(bad, Put(fnd, ev.f, st2), stat)
UReinit(ev) ==
  LET st == fnd[ev.f]
      all == ev.how \in {"random", "omegas", "phis"}
      shape == IsMat(ev.w, st.nf, st.np)
      w == CASE ev.how = "omegas" -> ev.arg [] ev.how = "phis" -> ev.pots[1].ret [] ev.how = "random" -> ev.w [] OTHER -> st.w
      st1 == IF all THEN [st EXCEPT !.w = w, !.J = V1(st.np), !.J0 = V1(st.np), !.budget = FullBudget(st.np, st.opts), !.known = TRUE]
             ELSE IF ev.how = "revive" THEN ResetBudget(st) ELSE st
      pots == ev.how # "phis" \/ (Len(ev.pots) >= 1 /\ \A k \in 1..Len(ev.pots) : ev.pots[k].id = st.i /\ EqM(ev.pots[k].ff, ev.arg))
      bad == Cl({"C20"}, "operation-accepted", ev.exc = <<>>)
        \cup Cl({"C20"}, "constraints-initialised", IF ev.how = "revive" THEN NotInitialised(ev, st.c) ELSE Initialised(ev, st.c, st.np))
        \cup Cl({"C20"}, "initialised-with-the-number-of-compartments", InitArgs(ev, st.np))
        \cup Cl({"C20"}, "fields-from-the-potential-of-the-part", pots)
        \cup (IF pots THEN Cl({"C20"}, "fields-after-operation", shape /\ NearM(ev.w, w, MaxAbsM(w))) ELSE {})
  IN ToFnd(bad, Put(fnd, ev.f, IF pots THEN [st1 EXCEPT !.w = IF shape THEN ev.w ELSE @] ELSE [st EXCEPT !.known = FALSE]), stat)

(* ---- one iteration --------------------------------------------------------- *)
SameM(x, y) == EqM(x, y)
Broad(coef, np) == IF Len(coef) = 1 THEN [m \in 1..np |-> coef[1]] ELSE coef
IterArgs(st, it, mask) ==
     Cl({"C20"}, "normalize-gets-boltzmann-factors-and-partition-functions", \A k \in 1..Len(it.norm) : it.norm[k].id = st.n /\ SameM(it.norm[k].phi, it.part[1].wrote) /\ EqV(it.norm[k].Q, it.part[1].ret) /\ EqV(it.norm[k].masks, mask))
\cup Cl({"C20"}, "features-from-the-normalised-fractions", \A k \in 1..Len(it.feat) : it.feat[k].id = st.e /\ SameM(it.feat[k].phi, it.norm[1].wrote))
\cup Cl({"C20"}, "constraints-prepared-with-the-current-state", \A k \in 1..Len(it.prep) : LET p == it.prep[k] IN SameM(p.ff, it.feat[1].wrote) /\ EqV(p.J, it.part[1].J) /\ EqV(p.masks, mask))
\cup Cl({"C20"}, "interaction-sees-the-current-fractions", \A k \in 1..Len(it.pot) : it.pot[k].id = st.i /\ SameM(it.pot[k].ff, it.feat[1].wrote))
\cup Cl({"C20"}, "coefficient-sees-the-current-fractions", \A k \in 1..Len(it.coef) : it.coef[k].id = st.i /\ SameM(it.coef[k].ff, it.feat[1].wrote))
\cup Cl({"C20"}, "energy-sees-potential-and-fractions", \A k \in 1..Len(it.ivd) : it.ivd[k].id = st.i /\ SameM(it.ivd[k].ff, it.feat[1].wrote) /\ SameM(it.ivd[k].pot, it.pot[1].ret))
\cup Cl({"C20"}, "entropy-sees-the-current-fractions", \A k \in 1..Len(it.evd) : it.evd[k].id = st.e /\ SameM(it.evd[k].phi, it.norm[1].wrote))
\cup Cl({"C20"}, "constraints-evolve-with-the-masks", \A k \in 1..Len(it.evol) : EqV(it.evol[k].masks, mask))
Complete(it) == Len(it.part) = 1 /\ Len(it.norm) = 1 /\ Len(it.feat) = 1 /\ Len(it.pot) > 0 /\ Len(it.coef) > 0 /\ Len(it.ivd) > 0 /\ Len(it.evd) > 0
RECURSIVE USteps(_, _, _, _, _, _, _, _)
USteps(sys, st0, its, k, inner, tol, lst, acc) ==
  IF k > Len(its) \/ acc.abort THEN acc
  ELSE
  LET it == its[k]
      st == acc.st
      cons == Range1(st.c)
      proto == Cl({"C20"}, "calls-follow-the-protocol", Conforms(it.calls, cons))
  IN IF Marginal(sys, st.J, st.J0) THEN [acc EXCEPT !.abort = TRUE, !.bad = @ \cup proto]
     ELSE IF ~Complete(it) THEN [acc EXCEPT !.abort = TRUE, !.bad = @ \cup {"calls-follow-the-protocol"}]
     ELSE
     LET o == [w |-> it.part[1].w, J |-> it.part[1].J, phi |-> <<>>, cpot |-> <<>>]
         okshape == ObsShape(sys, o) /\ it.part[1].id = st.e
     IN IF ~okshape THEN [acc EXCEPT !.abort = TRUE, !.bad = @ \cup {"partition-gets-fields-and-volumes"}]
     ELSE
     LET rev == NeedsRevive(sys, st.J, st.budget)
         mask == MaskOf(sys, o.J)
         phi == it.norm[1].wrote  ff == it.feat[1].wrote
         prepared(c) == {j \in 1..Len(it.evol) : it.evol[j].id = c}
         ce == TLCEval([c \in 1..Len(st.c) |-> LET g == CHOOSE j \in 1..Len(it.gave) : it.gave[j].id = st.c[c] IN
                  [pot |-> it.gave[g].pot, vd |-> it.gave[g].vd, res |-> <<>>,
                   err |-> IF prepared(st.c[c]) = {} THEN R(0) ELSE it.evol[CHOOSE j \in prepared(st.c[c]) : TRUE].ret]])
         e == EvalWith(sys, o.w, o.J, phi, ff, it.norm[1].ret, ce, it.pot[1].ret, it.ivd[1].ret, it.evd[1].ret, Broad(it.coef[1].ret, sys.np))
         nrev == IF rev THEN Cardinality(Dead(sys, st.J)) ELSE 0
         bad == proto \cup StartClauses({"C20"}, sys, st, o, acc.mag) \cup IterArgs(st, it, mask)
           \cup Cl({"C20"}, "step-applied-to-the-fields", \A j \in 1..Len(it.evol) : Near(it.evol[j].step, RMul(e.fac, sys.accW), RMul(sys.accW, e.mag)))
         v == IF k % inner = 0 THEN Verdict(sys, e, tol) ELSE "no"
     IN IF \E c \in 1..Len(st.c) : \A j \in 1..Len(it.gave) : it.gave[j].id # st.c[c] THEN [acc EXCEPT !.abort = TRUE, !.bad = @ \cup {"calls-follow-the-protocol"}]
        ELSE USteps(sys, st0, its, k + 1, inner, tol, lst,
          [st |-> [st EXCEPT !.w = e.w, !.J = e.J, !.J0 = e.J0, !.budget = @ - nrev], bad |-> acc.bad \cup bad, e |-> e, abort |-> FALSE, mag |-> e.mag, div |-> FALSE,
           stop |-> IF acc.stop = 0 /\ v = "yes" /\ k < Len(its) THEN k ELSE acc.stop, last |-> v, rv |-> acc.rv + nrev,
           dd |-> acc.dd + Cardinality({m \in 1..sys.np : e.live[m] /\ ~RLt(sys.thr, e.J[m])})])
URun(ev) ==
  LET st == fnd[ev.f]  sys == USys(st)
      max == RunArg(ev.args.max, st.opts.max)  tol == RunArg(ev.args.tol, st.opts.tol)  itv == RunArg(ev.args.interval, st.opts.interval)
      inner == Inner(max, itv)  total == Total(max, itv)
      en == ev.end
      shape == ev.exc = <<>> /\ Len(en.vol) = st.np /\ IsMat(en.frac, st.np, st.nc) /\ FinV(en.vol) /\ FinM(en.frac) /\ IsMat(en.w, st.nf, st.np)
      acc == USteps(sys, st, ev.iters, 1, inner, tol, total, [st |-> st, bad |-> {}, e |-> <<>>, abort |-> ~st.known \/ ev.exc # <<>>, div |-> FALSE, stop |-> 0, last |-> "no", mag |-> R(0), rv |-> 0, dd |-> 0])
      good == ~acc.abort /\ shape /\ Len(ev.iters) > 0
      bad == Cl({"C20"}, "run-succeeds", ev.exc = <<>>) \cup acc.bad \cup Cl({"C20"}, "no-initialisation-during-a-run", ev.inits = <<>>)
        \cup (IF ev.exc # <<>> THEN {} ELSE Cl({"C20"}, "result-shape", shape) \cup Cl({"C20"}, "iterations-counted", en.steps = Len(ev.iters)))
        \cup (IF ~good THEN {} ELSE
                (IF Marginal(sys, acc.e.J, acc.e.J0) THEN {} ELSE ResultClauses(sys, acc.e, en))
           \cup Cl({"C20"}, "error-incompressibility", ErrNear(en.e_inc, acc.e.e_inc, acc.mag))
           \cup Cl({"C20"}, "error-fields", ErrNear(en.e_w, acc.e.e_w, acc.mag))
           \cup Cl({"C20"}, "error-volumes", ErrNear(en.e_J, acc.e.e_J, acc.mag))
           \cup Cl({"C20"}, "error-constraints", ErrNear(en.e_con, acc.e.e_con, acc.mag))
           \cup Cl({"C20"}, "final-fields", \A r \in 1..st.nf : \A m \in 1..st.np : Near(en.w[r][m], acc.e.w[r][m], RMax(RAbs(acc.e.w[r][m]), RMul(sys.accW, acc.mag))))
           \cup Cl({"C20"}, "remaining-revive-budget", en.left = acc.st.budget)
           \cup Cl({"C20"}, "ends-at-the-first-converged-check", acc.stop = 0)
           \cup Cl({"C20"}, "early-end-is-justified", en.steps >= total \/ acc.last # "no")
           \cup Cl({"C20"}, "ends-at-a-check", en.steps % inner = 0 /\ en.steps <= total))
  IN [Cur(bad) EXCEPT !.fnd = Put(fnd, ev.f, IF good THEN [acc.st EXCEPT !.w = en.w] ELSE [st EXCEPT !.known = FALSE, !.w = IF shape THEN en.w ELSE @, !.budget = IF shape THEN en.left ELSE @]),
        !.stat = [stat EXCEPT !.runs = @ + 1, !.steps = @ + (IF good THEN Len(ev.iters) ELSE 0), !.revives = @ + acc.rv, !.deaths = @ + acc.dd,
                              !.early = @ + (IF shape /\ en.steps < total THEN 1 ELSE 0), !.copies = @ + (IF good /\ Dead(sys, acc.e.J) # {} THEN 1 ELSE 0)]]
Rejects(ev) == Cur(Cl({"C20", "C10"}, "unfitting-user-defined-part-rejected", Range1(ev.exc) \cap {ev.want} # {}))
\* counts of the calls to a compiled user-defined part
Counts(ev) == Cur(Cl({"C20"}, "calls-per-iteration", \A k \in 1..Len(ev.per) : ev.per[k] = ev.steps) \cup Cl({"C20"}, "initialised-once-per-initialisation", ev.init >= 1 /\ ev.np = ev.want))
UEffect(ev) ==
  CASE ev.op \in {"uset", "ureinit", "urun"} /\ ev.f \notin DOMAIN fnd -> Cur({})      \* its creation was found wrong already
    [] ev.op = "unew" -> UNew(ev)
    [] ev.op = "uset" -> USet(ev)
    [] ev.op = "ureinit" -> UReinit(ev)
    [] ev.op = "urun" -> URun(ev)
    [] ev.op = "ureject" -> Rejects(ev)
    [] ev.op = "ucount" -> Counts(ev)
    [] OTHER -> Effect(ev)
UNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ \E r \in {Strict(UEffect(Log[l]))} :
       /\ objs' = r.objs /\ fnd' = r.fnd /\ held' = r.held /\ stat' = r.stat
       /\ (r.bad # {}) => PrintT("@F " \o ToJson([line |-> l, op |-> Log[l].op, bad |-> r.bad]))
       /\ (l = Len(Log)) => PrintT("@D " \o ToJson(r.stat))
USpec == Init /\ [][UNext]_vars
=============================================================================
