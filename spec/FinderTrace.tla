----------------------------- MODULE FinderTrace -----------------------------
(***************************************************************************)
(* Validation of executions of the real finder against module Finder.     *)
(* The trace (one JSON object per line) holds the operations performed on  *)
(* parameter objects and finders with their arguments and everything the   *)
(* public interface shows afterwards.  Each event is matched with the      *)
(* action of the specification; every disagreement is reported as a named  *)
(* clause of the property it belongs to, and the state is then taken from  *)
(* the observation so that the rest of the trace is judged as well.        *)
(***************************************************************************)
EXTENDS Finder, Thermo, Json, IOUtils

CONSTANT Props          \* the properties whose clauses are evaluated
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, objs, fnd, held, stat
vars == <<l, objs, fnd, held, stat>>

\* clause of the properties ps; the condition is evaluated only when wanted
Cl(ps, name, ok) == IF (ps \cap Props) # {} /\ ~ok THEN {name} ELSE {}
\* what an event leads to: violated clauses and the next state
Cur(bad)           == [bad |-> bad, objs |-> objs, fnd |-> fnd, held |-> held, stat |-> stat]
ToObjs(bad, o)     == [Cur(bad) EXCEPT !.objs = o]
ToFnd(bad, f, s)   == [Cur(bad) EXCEPT !.fnd = f, !.stat = s]
Wants(ps) == (ps \cap Props) # {}
Conf == {"C06", "C09", "C10", "C11", "C18", "C17", "C20"}     \* need full agreement of the state

Bump(s, k, n) == [s EXCEPT ![k] = @ + n]
Stat0 == [runs |-> 0, steps |-> 0, revives |-> 0, deaths |-> 0, rejected |-> 0, converged |-> 0, early |-> 0, copies |-> 0, multi |-> 0, twins |-> 0, scenarios |-> 0,
          rvq1 |-> 0, rvq2 |-> 0, rvq3 |-> 0, rvq4 |-> 0]      \* revived fields in each quarter of their range
Put(f, k, v) == TLCEval([x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]])

(* ---- parameter objects ------------------------------------------------------ *)
A(ev, k) == ev.args[k]
SizesArg(a) == IF a.sizes.d = <<>> THEN Scalar(R(1)) ELSE a.sizes
ObjOK(ev) == LET a == ev.args IN
  CASE ev.t = "fh"    -> FhOK(a.n, a.chis)
    [] ev.t = "block" -> BlockOK(a.nf, a.chis, a.per)
    [] ev.t = "ig"    -> IgOK(a.n, SizesArg(a))
    [] ev.t = "pd"    -> PdOK(a.nf, SizesArg(a), a.per)
    [] ev.t = "can"   -> a.phi.d = <<>> \/ CanOK(a.n, a.phi)
    [] ev.t = "gc"    -> GcOK(a.n, a.act)
    [] ev.t = "gcmu"  -> Fits(a.mu, <<a.n>>) /\ Fits(SizesArg(a), <<a.n>>)
    [] ev.t \in {"fhu", "no"} -> TRUE
    [] ev.t \in {"loc", "glo"} -> ConOK(a.nf, a.Cs, a.Ts)
ObjVal(ev) == LET a == ev.args IN
  CASE ev.t = "fh"    -> Fh(a.n, a.chis)
    [] ev.t = "block" -> Block(a.nf, a.chis, a.per)
    [] ev.t = "ig"    -> Ig(a.n, SizesArg(a))
    [] ev.t = "pd"    -> Pd(a.nf, SizesArg(a), a.per)
    [] ev.t = "can"   -> Can(a.n, IF a.phi.d = <<>> THEN Equimolar(a.n) ELSE a.phi)
    [] ev.t = "gc"    -> Gc(a.n, a.act)
    [] ev.t = "gcmu"  -> GcFromMu(a.n, a.mu, SizesArg(a))
    [] ev.t = "fhu"   -> [t |-> "fh", n |-> a.n, chi |-> UniformMat(a.n, a.chi, a.vanish)]
    [] ev.t = "no"    -> [t |-> "glo", nf |-> a.nf, Cs |-> <<>>, Ts |-> <<>>]    \* no constraint at all
    [] ev.t \in {"loc", "glo"} -> Con(ev.t, a.nf, a.Cs, a.Ts)
\* the public attributes of an object agree with its value
Shows(o, s) ==
  CASE o.t = "fh"    -> s.n = o.n /\ NearM(s.chis, o.chi, MaxAbsM(o.chi)) /\ NearV(s.tri, UpperTriangle(o.chi), MaxAbsM(o.chi))
    [] o.t = "block" -> s.n = SumI(o.per) /\ s.nf = o.nf /\ NearM(s.chis, ChiOf(o), MaxAbsM(o.chif)) /\ NearM(s.chis_feat, o.chif, MaxAbsM(o.chif)) /\ s.per = o.per
    [] o.t = "ig"    -> s.n = o.n /\ EqV(s.sizes, o.size)
    [] o.t = "pd"    -> s.n = SumI(o.per) /\ s.nf = o.nf /\ EqV(s.sizes, o.size)
    [] o.t = "can"   -> s.n = o.n /\ NearV(s.phi_means, o.phi, R(0))
    [] o.t = "gc"    -> s.n = o.n /\ NearV(s.scaled_activity, o.act, RMaxAbs(o.act))
    [] o.t \in {"loc", "glo"} -> s.nf = o.nf /\ EqM(s.Cs, o.Cs) /\ EqV(s.Ts, o.Ts)
ObjProps == {"C17", "C11"}
Obj(ev) ==
  LET ok == ObjOK(ev)
      bad == Cl({"C17"}, "rejects-unfitting-arguments", ok \/ ev.exc # <<>>)
        \cup Cl(Conf \cup {"C03"}, "accepts-valid-arguments", ~ok \/ ev.exc = <<>>)
        \cup (IF ok /\ ev.exc = <<>> THEN Cl({"C17", "C03"}, "stores-the-given-values", Shows(ObjVal(ev), ev.shows)) ELSE {})
  IN ToObjs(bad, IF ok /\ ev.exc = <<>> THEN Put(objs, ev.o, ObjVal(ev)) ELSE objs)
\* assignment to an attribute
ObjSet(ev) ==
  LET o == objs[ev.o]
      ok == SetOK(o, ev.a, ev.arg)
      o2 == IF ok THEN SetTo(o, ev.a, ev.arg) ELSE o
      bad == Cl({"C17"}, "rejects-unfitting-assignment", ok \/ ev.exc # <<>>)
        \cup Cl({"C17"}, "accepts-valid-assignment", ~ok \/ ev.exc = <<>>)
        \cup Cl({"C17"}, "stores-the-assigned-values", Shows(o2, ev.shows))
  IN ToObjs(bad, Put(objs, ev.o, o2))
\* in-place change of an array handed out by the object
ObjPoke(ev) ==
  LET o2 == PokeTo(objs[ev.o], ev.a, ev.i, ev.j, ev.x) IN
  ToObjs({}, Put(objs, ev.o, IF Shows(o2, ev.shows) THEN o2 ELSE objs[ev.o]))    \* the array may be a copy
\* set_uniform_chis / set_random_chis
ObjUniform(ev) ==
  LET o == objs[ev.o]  o2 == [o EXCEPT !.chi = UniformMat(o.n, ev.chi, ev.vanish)] IN
  ToObjs(Cl({"C17"}, "uniform-matrix", ev.exc = <<>> /\ Shows(o2, ev.shows)), Put(objs, ev.o, o2))
ObjRandom(ev) ==
  LET o == IF ev.made THEN [t |-> "fh", n |-> ev.n, chi |-> UniformMat(ev.n, "0", TRUE)] ELSE objs[ev.o]
      n == o.n  X == IF ev.exc = <<>> THEN ev.shows.chis ELSE <<>>
      shape == IsMat(X, n, n)
      bad == Cl({"C17"}, "random-matrix-shape", ev.exc = <<>> /\ shape /\ FinM(X))
        \cup (IF shape THEN
             Cl({"C17"}, "random-matrix-independent-of-what-was-stored", EqM(X, ev.ref))
        \cup Cl({"C17"}, "random-matrix-symmetric", \A i, j \in 1..n : REq(X[i][j], X[j][i]))
        \cup Cl({"C17"}, "random-matrix-diagonal", ev.vanish => \A i \in 1..n : REq(X[i][i], R(0)))
        \cup Cl({"C17"}, "random-matrix-mean-and-spread",
                IF REq(R(ev.std), R(0)) THEN \A k \in 1..Len(DrawnEntries(X, ev.vanish)) : Near(DrawnEntries(X, ev.vanish)[k], R(ev.mean), R(ev.mean))
                ELSE Len(DrawnEntries(X, ev.vanish)) < 300 \/ SampleOK(DrawnEntries(X, ev.vanish), R(ev.mean), R(ev.std)))
        \cup Cl({"C17"}, "random-matrix-spread-nonzero", REq(R(ev.std), R(0)) \/ LET d == DrawnEntries(X, ev.vanish) IN
                \A i, j \in 1..(IF Len(d) > 12 THEN 12 ELSE Len(d)) : i = j \/ ~REq(d[i], d[j])) ELSE {})
  IN ToObjs(bad, Put(objs, ev.o, [o EXCEPT !.chi = IF shape THEN X ELSE o.chi]))
See(ev) == Cur(Cl({"C11", "C17"}, "parameter-object-unchanged-by-others", Shows(objs[ev.o], ev.shows)))
\* an array of the user, compared with what it was when handed over
SeeArr(ev) == Cur(Cl({"C11"}, "input-array-unchanged", EqV(ev.then, ev.now)))

(* ---- construction and reconfiguration ------------------------------------------ *)
NumOpts(o) == [num_part |-> o.num_part, revive |-> o.revive, accJ |-> R(o.accJ), accW |-> R(o.accW), bound |-> R(o.bound),
               thr |-> R(o.thr), scaler |-> R(o.scaler), max |-> R(o.max), tol |-> R(o.tol), interval |-> R(o.interval), std |-> R(o.std)]
ConParts(st_kw, kw, kwi, cs) == [c \in 1..Len(cs) |-> ConPart(objs[cs[c]], MergeKw(MergeKw(st_kw, kw), IF Len(kwi) >= c THEN kwi[c] ELSE << >>))]
RandomField(opts, w) ==
  /\ FinM(w)
  /\ \A r \in 1..Len(w) : RLe(RMaxAbs(w[r]), RMul(R(12), opts.std))
  /\ REq(opts.std, R(0)) \/ \A r \in 1..Len(w) : \A m \in 1..Len(w[r]) : ~REq(w[r][m], R(0))
  /\ (Len(w) * Len(w[1]) >= 300 /\ ~REq(opts.std, R(0))) =>
        LET F[k \in 0..Len(w)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o w[k] IN SampleOK(F[Len(w)], R(0), opts.std)
New(ev) ==
  LET i == InterPart(objs[ev.i], ev.kw)  e == EntrPart(objs[ev.e])  n == EnsPart(objs[ev.n])
      cs == ConParts(<< >>, ev.kw, <<>>, ev.c)
      errs == NewErrs(i, e, n, cs)
      opts == NumOpts(ev.opts)
      np == IF opts.num_part > 0 THEN opts.num_part ELSE 8 * e.nc
      shape == ev.exc = <<>> /\ IsMat(ev.w, e.nf, np)
      bad == Cl({"C10"}, "mismatching-parts-rejected", errs = {} \/ (ev.exc # <<>> /\ Range1(ev.exc) \cap errs # {}))
        \cup Cl(Conf \cup {"C01", "C02", "C03", "C04", "C05", "C07", "C08"}, "matching-parts-accepted", errs # {} \/ ev.exc = <<>>)
        \cup (IF errs = {} /\ ev.exc = <<>> THEN Cl({"C09"}, "number-of-compartments", shape)
               \cup (IF shape THEN Cl({"C09"}, "random-initial-fields", RandomField(opts, ev.w)) ELSE {}) ELSE {})
  IN ToFnd(bad, IF errs = {} /\ shape THEN Put(fnd, ev.f, NewFinder(i, e, n, cs, opts, ev.kw, ev.w)) ELSE fnd,
           IF errs # {} THEN Bump(stat, "rejected", 1) ELSE stat)

\* after an operation that does not run, the fields are public; volumes, multipliers and budget show in the next run
FieldsAfter(ps, st, ev) == Cl(ps, "fields-after-operation", IsMat(ev.w, st.entr.nf, st.np) /\ NearM(ev.w, st.w, MaxAbsM(st.w)))
Resync(st, w) == IF IsMat(w, st.entr.nf, st.np) THEN [st EXCEPT !.w = w] ELSE st
Apply(ev, st, errs, st2, shown) ==
  LET good == errs = {}
      bad == Cl({"C10"}, "mismatch-rejected", good \/ (ev.exc # <<>> /\ Range1(ev.exc) \cap errs # {}))
        \cup Cl(Conf \cup {"C01", "C02", "C03", "C04", "C05", "C07"}, "matching-operation-accepted", ~good \/ ev.exc = <<>>)
        \cup (IF good THEN FieldsAfter({"C09", "C11"}, st2, ev) ELSE FieldsAfter({"C10"}, st, ev))
        \cup shown
  IN ToFnd(bad, Put(fnd, ev.f, Resync(IF good THEN st2 ELSE st, ev.w)), IF good THEN stat ELSE Bump(stat, "rejected", 1))
\* individual options come as one set for each constraint (kwn: how many were given, -1 for none)
OptErrs(ev) == IF ev.kwn >= 0 /\ ev.kwn # Len(ev.o) THEN {"ValueError", "TypeError"} ELSE {}
Set(ev) ==
  LET st == fnd[ev.f]  kw == MergeKw(st.kw, ev.kw) IN
  CASE ev.part = "i" -> LET p == InterPart(objs[ev.o[1]], kw) IN Apply(ev, st, PartErrs("i", p, st.entr.nc, st.entr.nf), SetInter(st, p, ev.keep), {})
    [] ev.part = "e" -> LET p == EntrPart(objs[ev.o[1]]) IN Apply(ev, st, PartErrs("e", p, st.entr.nc, st.entr.nf), SetEntr(st, p, ev.keep), {})
    [] ev.part = "n" -> LET p == EnsPart(objs[ev.o[1]]) IN Apply(ev, st, PartErrs("n", p, st.entr.nc, st.entr.nf), SetEns(st, p, ev.keep), {})
    [] ev.part = "c" -> LET ps == ConParts(st.kw, ev.kw, ev.kwi, ev.o) IN Apply(ev, st, ConsErrs(ps, st.entr.nc, st.entr.nf) \cup OptErrs(ev), SetCons(st, ps, ev.keep), {})
ReinitEv(ev) ==
  LET st == fnd[ev.f] IN
  CASE ev.how = "random" ->
         LET shape == IsMat(ev.w, st.entr.nf, st.np)
             ok == shape /\ RandomField(st.opts, ev.w)
                   /\ (REq(st.opts.std, R(0)) \/ \A r \in 1..Len(ev.w) : \A m \in 1..st.np : ~REq(ev.w[r][m], st.w[r][m]))
         IN Apply(ev, st, {}, Reinit(st, IF shape THEN ev.w ELSE st.w), Cl({"C09"}, "random-fields-drawn-anew", ok))
    [] ev.how = "omegas" -> Apply(ev, st, IF FieldOK(st, ev.arg) THEN {} ELSE {"ValueError"},
                                  IF FieldOK(st, ev.arg) THEN Reinit(st, BMat(ev.arg, st.entr.nf, st.np)) ELSE st, {})
    [] ev.how = "phis"   -> Apply(ev, st, IF FieldOK(st, ev.arg) THEN {} ELSE {"ValueError"},
                                  IF FieldOK(st, ev.arg) THEN Reinit(st, FieldFromPhis(st, ev.arg)) ELSE st, {})
    [] ev.how = "cons"   -> Apply(ev, st, {}, ResetMultipliers(st), {})
    [] ev.how = "revive" -> Apply(ev, st, {}, ResetBudget(st), {})

(* ---- results ------------------------------------------------------------------------ *)
MixOf(sys) == Mixture(TLCEval([i \in Comps(sys) |-> [j \in Comps(sys) |-> sys.chi[sys.feat[i]][sys.feat[j]]]]), sys.size)
Tiny(x) == RLt(RAbs(x), R("1e-290"))
ResultShape(st, en) == Len(en.vol) = st.np /\ IsMat(en.frac, st.np, st.entr.nc) /\ FinV(en.vol) /\ FinM(en.frac)
ReportedConv(en, tol) == RLt(en.e_inc, tol) /\ RLt(en.e_w, tol) /\ RLt(en.e_J, tol) /\ RLt(en.e_con, tol)
LocalCons(sys)  == {c \in 1..Len(sys.cons) : sys.cons[c].kind = "loc"}
\* differences of chemical potentials of compartments m and 1 (module Kernel, docs): at most four tolerances,
\* and one local constraint allows a difference along C - T
Slack(tol, mu) == RAdd(RMul(R(4), tol), RMul(R("1e-8"), RAdd(R(1), RMaxAbs(mu))))
EqualMus(sys, tol, mu1, mu, phi1, phi) ==
  LET ok(i) == ~Tiny(phi1[i]) /\ ~Tiny(phi[i])
      d(i) == RSub(mu[i], mu1[i])
      sl == Slack(tol, mu1)
  IN CASE LocalCons(sys) = {} -> \A i \in Comps(sys) : ok(i) => RLe(RAbs(d(i)), sl)
       [] Cardinality(LocalCons(sys)) = 1 /\ Len(sys.cons[CHOOSE c \in LocalCons(sys) : TRUE].Ts) = 1 ->
            LET con == sys.cons[CHOOSE c \in LocalCons(sys) : TRUE]
                g(i) == RSub(con.Cs[1][sys.feat[i]], con.Ts[1])
            IN \A i, j \in Comps(sys) : ok(i) /\ ok(j) =>
                 RLe(RAbs(RSub(RMul(d(i), g(j)), RMul(d(j), g(i)))), RMul(sl, RAdd(RAbs(g(i)), RAbs(g(j)))))
       [] OTHER -> TRUE
GcMus(sys, tol, mus, phis) ==   \* mu_i - (ln a_i + 1)/l_i is one constant for all components and compartments
  LET c(m, i) == RSub(mus[m][i], RDiv(RAdd(RLn(sys.ens.act[i]), R(1)), sys.size[i]))
      p == {<<m, i>> \in Parts(sys) \X Comps(sys) : ~Tiny(phis[m][i])}
      q == CHOOSE x \in p : TRUE
  IN \A x \in p : RLe(RAbs(RSub(c(x[1], x[2]), c(q[1], q[2]))), Slack(tol, mus[1]))
Separated(fr) == \E m \in 2..Len(fr) : \E i \in 1..Len(fr[1]) : ~Within(fr[m][i], fr[1][i], R("1e-2"))
\* clauses of a result that the run reports as converged
ConvergedClauses(sys, tol, en) ==
  LET np == sys.np
      mus == TLCEval([m \in 1..np |-> IF Wants({"C01", "C03", "C18"}) THEN ChemPots(sys, en.frac[m]) ELSE <<>>])
      ff == FeatPhis(sys, Transp(en.frac))
      tot == RSum(en.vol)
      tt == RAdd(tol, R("1e-9"))
  IN Cl({"C01", "C18"}, "equal-chemical-potentials", \A m \in 2..np : EqualMus(sys, tol, mus[1], mus[m], en.frac[1], en.frac[m]))
     \cup Cl({"C01", "C18"}, "incompressible", \A m \in 1..np : RLe(RAbs(RSub(RSum(en.frac[m]), R(1))), tt))
     \cup Cl({"C01"}, "positive-fractions-and-volumes", \A m \in 1..np : RLt(R(0), en.vol[m]) /\ \A i \in Comps(sys) : RLe(R(0), en.frac[m][i]))
     \cup (IF sys.ens.kind = "gc" /\ sys.cons = <<>> THEN Cl({"C03"}, "prescribed-chemical-potentials", GcMus(sys, tol, mus, en.frac)) ELSE {})
     \cup (IF sys.ens.kind = "can" THEN Cl({"C02"}, "converged-mean-composition", \A i \in Comps(sys) :
               Within(RDiv(RDot(Col(en.frac, i), en.vol), tot), sys.ens.phi[i], RAdd(RMul(RMul(R(4), tol), RMax(sys.accJ, R(1))), R("1e-9")))) ELSE {})
     \cup Cl({"C04"}, "constraints-satisfied", \A c \in 1..Len(sys.cons) :
             LET con == sys.cons[c]  res == Resid(con, ff) IN
             IF con.kind = "loc" THEN \A a \in 1..Len(con.Ts) : \A m \in 1..np : RLe(RAbs(res[a][m]), tt)
             ELSE \A a \in 1..Len(con.Ts) : RLe(RAbs(RDiv(RDot(res[a], en.vol), tot)),
                    RAdd(tt, RMul(RMul(R(2), RMul(sys.accJ, tol)), RMaxAbs(con.Cs[a])))))
\* clauses of any result: fractions e.phi at the last iteration, volumes J after it
GroupVol(en, row) == RSum([m \in 1..Len(en.vol) |-> IF en.frac[m] = row THEN en.vol[m] ELSE R(0)])
ResultClauses(sys, e, en) ==
  LET J == e.J  live == Alive(sys, J)  dead == Dead(sys, J)
      rows == {en.frac[m] : m \in live}
      tot == RSum([m \in 1..sys.np |-> IF m \in live THEN J[m] ELSE R(0)])
      sc == RMul(R("1e-1"), RAdd(sys.accJ, R(1)))
  IN Cl({"C08"}, "positive-volumes", \A m \in 1..sys.np : RLt(R(0), en.vol[m]))
     \cup Cl({"C08", "C06", "C02"}, "living-compartments-keep-their-fractions",
             \A m \in live : \A i \in Comps(sys) : NearRel(en.frac[m][i], e.phi[i][m]))
     \cup Cl({"C08"}, "dead-compartments-are-copies-of-living-ones", \A m \in dead : en.frac[m] \in rows)
     \cup Cl({"C08"}, "volume-of-each-composition-kept", \A row \in rows :
             Near(GroupVol(en, row), RSum([m \in 1..sys.np |-> IF m \in live /\ en.frac[m] = row THEN J[m] ELSE R(0)]), e.mag))
     \cup Cl({"C08"}, "total-volume-kept", Near(RSum(en.vol), tot, e.mag))
     \cup Cl({"C08"}, "volumes-without-deaths", dead # {} \/ NearV(en.vol, J, e.mag))
     \* mean composition: up to the change of the volumes in the last iteration (none died in it)
     \cup (IF sys.ens.kind = "can" /\ Cardinality(live) = e.nlive
           THEN Cl({"C02"}, "returned-mean-composition", \A i \in Comps(sys) :
                  Within(RDiv(RDot(Col(en.frac, i), en.vol), RSum(en.vol)), sys.ens.phi[i],
                         RAdd(RMul(RMul(R(2), RSum([m \in 1..sys.np |-> RAbs(RSub(J[m], e.J0[m]))])), RMaxAbs(e.phi[i])), RMul(Eps, RAdd(R(1), e.mag)))))
           ELSE {})

(* ---- where a revived field lies in its range: -1 .. 1 ---- *)
Narrow(sys, w, r) == RLe(HalfWidth(sys, w, r), R("1e-6"))
Place(sys, w, w2, r, m) == RDiv(RSub(w2[r][m], Centre(w, r)), HalfWidth(sys, w, r))
QuarterOf(x) == IF RLt(x, R("-1/2")) THEN 1 ELSE IF RLt(x, R(0)) THEN 2 ELSE IF RLt(x, R("1/2")) THEN 3 ELSE 4
Quarters(sys, w, w2, dead) == LET ps == {<<r, m>> \in Feats(sys) \X dead : ~Narrow(sys, w, r)} IN
  [k \in 1..4 |-> Cardinality({x \in ps : QuarterOf(Place(sys, w, w2, x[1], x[2])) = k})]
\* at the end of the trace: with so many draws, every quarter of the range has its share (to seven standard deviations)
Spread(s) == LET n == s.rvq1 + s.rvq2 + s.rvq3 + s.rvq4 IN n < 400 \/ \A q \in {s.rvq1, s.rvq2, s.rvq3, s.rvq4} : (n - 4 * q) * (n - 4 * q) <= 147 * n

(* ---- one observed iteration ----------------------------------------------------------- *)
\* st: state before the iteration; o: observation after revival and killing
NearJ(sys, a, b, s) == Len(a) = Len(b) /\ \A m \in 1..Len(a) : Near(a[m], b[m], RMul(RAdd(R(1), sys.accJ), s))
StartClauses(ps, sys, st, o, mag) ==
  LET rev == NeedsRevive(sys, st.J, st.budget)
      dead == Dead(sys, st.J)
      nz == {m \in 1..st.np : ~REq(o.J[m], R(0))}
  IN IF rev THEN
          Cl({"C07"}, "every-dead-compartment-revived-with-unit-volume", \A m \in dead : REq(o.J[m], R(1)))
     \cup Cl({"C07"} \cup ps, "living-volumes-kept-at-revival", \A m \in Alive(sys, st.J) : Near(o.J[m], st.J[m], RMul(sys.accJ, mag)))
     \cup Cl({"C07"}, "revived-fields-in-range", \A r \in Feats(sys) : \A m \in dead :
             Within(o.w[r][m], Centre(st.w, r), RAdd(HalfWidth(sys, st.w, r), RMul(RMul(R(2), Eps), RAdd(R(1), RMaxAbs(st.w[r]))))))
     \cup Cl({"C07"}, "revived-fields-random", \A r \in Feats(sys) : \A m, k \in dead :
             (m = k \/ RLe(HalfWidth(sys, st.w, r), R("1e-6")) \/ ~REq(o.w[r][m], o.w[r][k])))
     \cup Cl({"C07"}, "revived-fields-independent", \A m \in dead : \A r, s \in Feats(sys) :
             (r = s \/ Narrow(sys, st.w, r) \/ Narrow(sys, st.w, s) \/ ~Within(Place(sys, st.w, o.w, r, m), Place(sys, st.w, o.w, s, m), Eps)))
     \cup Cl({"C07"} \cup ps, "living-fields-kept-at-revival", \A r \in Feats(sys) : \A m \in Alive(sys, st.J) : Near(o.w[r][m], st.w[r][m], RMul(sys.accW, mag)))
     ELSE Cl({"C07"}, "dead-compartments-have-no-volume", \A m \in dead : REq(o.J[m], R(0)))
     \cup Cl({"C07"}, "no-other-compartment-dies", \A m \in Alive(sys, st.J) : RLt(R(0), o.J[m]))
     \cup Cl(ps, "volumes", NearJ(sys, o.J, Killed(sys, st.J), mag))
     \cup Cl(ps, "fields", \A r \in Feats(sys) : \A m \in 1..st.np : Near(o.w[r][m], st.w[r][m], RMax(RAbs(st.w[r][m]), RMul(sys.accW, mag))))
StepClauses(sys, o, e) ==
     (IF Len(o.phi) = 0 THEN {} ELSE
          Cl(Conf, "fractions", \A i \in Comps(sys) : \A m \in 1..sys.np : NearRel(o.phi[i][m], e.phi[i][m]))
     \cup Cl({"C07"}, "dead-compartments-are-empty", \A i \in Comps(sys) : \A m \in 1..sys.np : ~e.live[m] => REq(o.phi[i][m], R(0)))
     \cup (IF sys.ens.kind = "can"
           THEN Cl({"C02"}, "mean-composition-of-every-iteration", \A i \in Comps(sys) :
                  Near(RDiv(RDot(o.phi[i], o.J), RSum(o.J)), sys.ens.phi[i], R(0)))
           ELSE Cl({"C03"}, "activity-times-boltzmann-factor", \A i \in Comps(sys) : \A m \in 1..sys.np : NearRel(o.phi[i][m], e.phi[i][m]))))
     \cup (IF Len(o.cpot) = 0 THEN {} ELSE
          Cl(Conf \cup {"C04"}, "constraint-potentials", \A c \in 1..Len(o.cpot) : c <= Len(e.ce) /\ IsMat(o.cpot[c], sys.nf, sys.np) /\ NearM(o.cpot[c], e.ce[c].pot, e.mag)))
ObsShape(sys, o) == Len(o.J) = sys.np /\ IsMat(o.w, sys.nf, sys.np) /\ FinV(o.J) /\ FinM(o.w) /\ RLt(R(0), RSum(o.J))
                    /\ (Len(o.phi) = 0 \/ (IsMat(o.phi, sys.nc, sys.np) /\ FinM(o.phi)))

Huge == R("1e12")    \* the iteration diverges; double precision and the specification part
\* must the run have ended after this iteration?  "yes", "no", or "maybe" when double precision decides
Verdict(sys, e, tol) ==
  LET up == RMul(tol, R("1000001/1000000"))  lo == RMul(tol, R("999999/1000000"))
      slack == RMul(RMul(Eps, R("1/100")), RAdd(R(1), e.mag))
      hi(x) == RLt(RAdd(x, slack), lo)
      no(x) == RLt(up, RSub(x, slack))
  IN IF Marginal(sys, e.J, e.J0) THEN "maybe"
     ELSE IF ~Safe(sys, e) THEN "no"
     ELSE IF no(e.e_inc) \/ no(e.e_w) \/ no(e.e_J) \/ no(e.e_con) THEN "no"
     ELSE IF hi(e.e_inc) /\ hi(e.e_w) /\ hi(e.e_J) /\ hi(e.e_con) THEN "yes" ELSE "maybe"

(* fold over the iterations of a run; acc = [st, bad, e, stop, mag, rv, dd] *)
\* stop: index of the first check that must end the run (0: none)
Counted(acc, sys, st, o, revived) == IF revived /\ "C07" \in Props THEN LET c == Quarters(sys, st.w, o.w, Dead(sys, st.J)) IN TLCEval([h \in 1..4 |-> acc.qs[h] + c[h]]) ELSE acc.qs
RECURSIVE Steps(_, _, _, _, _, _, _, _)
Steps(sys, obs, n, k, inner, tol, first, acc) ==
  IF k > n \/ acc.abort THEN acc
  ELSE
  LET st == acc.st
      seen == Len(obs) > 0
      o == IF seen THEN obs[k] ELSE [w |-> st.w, J |-> Killed(sys, st.J), phi |-> <<>>, cpot |-> <<>>]
      rev == NeedsRevive(sys, st.J, st.budget)
      marg == Marginal(sys, st.J, st.J0)
      ps == IF k = 1 THEN Conf \cup first ELSE Conf \cup {"C05", "C04"}
  IN IF marg \/ (~seen /\ rev) THEN [acc EXCEPT !.abort = TRUE]      \* not determined by the specification
     ELSE IF ~FinV(st.J) \/ ~FinM(st.w) \/ RLt(Huge, acc.mag) \/ RLt(R(500), RMul(RMaxAbs(sys.size), MaxAbsM(st.w))) THEN [acc EXCEPT !.abort = TRUE, !.div = TRUE]   \* diverged
     ELSE IF seen /\ IsMat(o.w, sys.nf, sys.np) /\ Len(o.J) = sys.np /\ FinM(o.w) /\ FinV(o.J) /\ RLt(R(500), RMul(RMaxAbs(sys.size), MaxAbsM(o.w)))      \* revived beyond what double precision can exponentiate
          THEN [acc EXCEPT !.abort = TRUE, !.div = TRUE, !.qs = Counted(acc, sys, st, o, rev /\ seen), !.bad = @ \cup StartClauses(ps, sys, st, o, acc.mag)]
     ELSE IF seen /\ ~ObsShape(sys, o) THEN [acc EXCEPT !.abort = TRUE, !.bad = @ \cup Cl(Conf \cup {"C01", "C02", "C03", "C04", "C05", "C07", "C08"}, "iteration-state-is-finite", FALSE)]
     ELSE
     LET e0 == Eval(sys, o.w, o.J, st.lam)
         peak == RMax(st.peak, e0.mag)
         \* rounding of earlier, larger numbers persists in the multipliers, and in what is not observed
         e == [e0 EXCEPT !.mag = IF seen THEN RMax(@, RMul(R("1e-5"), peak)) ELSE peak]
         nrev == IF rev THEN Cardinality(Dead(sys, st.J)) ELSE 0
         bad == IF seen THEN StartClauses(ps, sys, st, o, acc.mag) \cup StepClauses(sys, o, e) ELSE {}
         lam2 == LamNext(sys, st.lam, e)
         v == IF k % inner = 0 THEN Verdict(sys, e, tol) ELSE "no"
         deaths == Cardinality({m \in 1..sys.np : e.live[m] /\ ~RLt(sys.thr, e.J[m])})
     IN Steps(sys, obs, n, k + 1, inner, tol, first,
          [st |-> [st EXCEPT !.w = e.w, !.J = e.J, !.J0 = e.J0, !.lam = lam2, !.budget = @ - nrev, !.peak = peak],
           bad |-> acc.bad \cup bad, e |-> e, abort |-> FALSE, mag |-> e.mag,
           div |-> ~RFin(e.mag) \/ RLt(Huge, e.mag),
           stop |-> IF acc.stop = 0 /\ v = "yes" /\ k < n THEN k ELSE acc.stop,
           last |-> v, rv |-> acc.rv + nrev, dd |-> acc.dd + deaths,
           qs |-> Counted(acc, sys, st, o, rev /\ seen)])

DiagKeys == {"steps", "time", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left"}
RunArg(x, default) == IF x = "" THEN default ELSE R(x)
ErrNear(a, b, mag) == Near(a, b, RMul(R("1e-3"), mag))
Bend == R("1e-12")
Sign(k) == IF k % 2 = 0 THEN R(1) ELSE R(-1)
Run(ev) ==
  LET st0 == fnd[ev.f]
      st == [st0 EXCEPT !.lam = LamOf(st0), !.fresh = FALSE]
      sys == SysOf(st)
      max == RunArg(ev.args.max, st.opts.max)  tol == RunArg(ev.args.tol, st.opts.tol)  itv == RunArg(ev.args.interval, st.opts.interval)
      inner == Inner(max, itv)  total == Total(max, itv)
      en == ev.end
      shape == ev.exc = <<>> /\ ResultShape(st, en) /\ IsMat(en.w, sys.nf, sys.np)
      n == IF ~ev.sim THEN Len(ev.steps) ELSE IF ev.exc # <<>> THEN total ELSE en.steps
      follow == st.known /\ (Len(ev.steps) > 0 \/ ev.sim) /\ n > 0
      first == {"C08", "C05", "C04"}
      acc0 == [st |-> st, bad |-> {}, e |-> <<>>, abort |-> ~follow, div |-> FALSE, stop |-> 0, last |-> "no", mag |-> R(0), rv |-> 0, dd |-> 0, qs |-> <<0, 0, 0, 0>>]
      acc == Steps(sys, ev.steps, n, 1, inner, tol, first, acc0)
      \* a run of which only the result is seen: how much does a small change of its initial state grow?
      bent == [st EXCEPT !.w = TLCEval([r \in Feats(sys) |-> [m \in 1..st.np |-> RAdd(@[r][m], RMul(Sign(r + m), RMul(Bend, RAdd(R(1), RAbs(@[r][m])))))]]),
                         !.J = TLCEval([m \in 1..st.np |-> RMul(@[m], RAdd(R(1), RMul(Sign(m), Bend)))]),
                         !.lam = TLCEval([c \in 1..Len(sys.cons) |-> IF sys.cons[c].kind = "loc" THEN [a \in 1..Len(@[c]) |-> VScale(RAdd(R(1), Bend), @[c][a])]
                                                                    ELSE VScale(RAdd(R(1), Bend), @[c])])]
      sh == Steps(sys, <<>>, n, 1, inner, tol, first, [acc0 EXCEPT !.st = bent])
      grown == IF ~ev.sim \/ ~follow \/ acc.abort THEN R(1)
               ELSE IF sh.abort \/ sh.div THEN Huge
               ELSE RMax(R(1), RDiv(RMax(RMaxAbs(VSub(sh.st.J, acc.st.J)),
                       RMaxAbs([r \in Feats(sys) |-> RMaxAbs([m \in 1..st.np |-> RDiv(RSub(sh.st.w[r][m], acc.st.w[r][m]), RAdd(R(1), RAbs(acc.st.w[r][m])))])])), Bend))
      amp == RMul(st.amp, grown)
      good == follow /\ ~acc.abort /\ ~acc.div /\ ev.exc = <<>> /\ RLt(amp, R(10000))
      wild == st.wild \/ acc.div
      conv == shape /\ ReportedConv(en, tol)
      AllP == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C17", "C18", "C20"}
      bad1 == Cl(AllP, "run-succeeds", ev.exc = <<>> \/ (ev.lax /\ ~follow) \/ wild)
         \cup (IF ev.exc # <<>> THEN {} ELSE
              Cl(AllP, "result-shape", shape \/ (((ev.lax /\ ~follow) \/ wild) /\ ~(FinV(en.vol) /\ FinM(en.frac))))
              \* these also when the iteration diverged: an error that is not a number is not below any tolerance
         \cup Cl({"C05", "C09"}, "steps-within-limit", en.steps >= 1 /\ en.steps <= RCeil(max))
         \cup Cl({"C05", "C09"}, "ends-early-only-when-converged", en.steps >= total \/ ReportedConv(en, tol))
         \cup (IF ~shape \/ wild THEN {} ELSE
              Cl({"C05"}, "diagnostics-keys", Range1(en.keys) = DiagKeys)
         \cup Cl({"C05", "C06"}, "steps-counted", Len(ev.steps) = 0 \/ en.steps = Len(ev.steps))
         \cup Cl({"C05", "C09"}, "ends-at-a-check", en.steps % inner = 0)
         \cup Cl({"C05"}, "incompressibility-error-of-the-result", en.steps >= total \/ Near(en.e_inc, RMaxAbs([m \in 1..sys.np |-> RSub(RSum(en.frac[m]), R(1))]), en.e_inc))
         \cup Cl({"C04"}, "no-constraint-no-residue", sys.cons # <<>> \/ REq(en.e_con, R(0)))
         \cup (IF en.steps < total \/ (conv /\ ~ev.sim /\ Len(ev.steps) = 0) THEN ConvergedClauses(sys, tol, en) ELSE {})
         \cup (IF ev.expect = "phases" /\ sys.ens.kind = "can"
               THEN Cl({"C01"}, "reference-system-converges", conv)
                    \cup (IF conv /\ SpinodalMargin(MixOf(sys), sys.ens.phi)
                          THEN Cl({"C01"}, "unstable-mixture-separates", Separated(en.frac)) ELSE {}) ELSE {})
         \cup (IF ~good THEN {} ELSE
              (IF Marginal(sys, acc.e.J, acc.e.J0) THEN {} ELSE ResultClauses(sys, acc.e, en))
         \cup Cl({"C05"} \cup Conf, "error-incompressibility", ErrNear(en.e_inc, acc.e.e_inc, acc.mag))
         \cup Cl({"C05"} \cup Conf, "error-fields", ErrNear(en.e_w, acc.e.e_w, acc.mag))
         \cup Cl({"C05"} \cup Conf, "error-volumes", ErrNear(en.e_J, acc.e.e_J, acc.mag))
         \cup Cl({"C05", "C04"} \cup Conf, "error-constraints", ErrNear(en.e_con, acc.e.e_con, acc.mag))
         \cup Cl({"C05"} \cup Conf, "final-fields", \A r \in Feats(sys) : \A m \in 1..sys.np : Near(en.w[r][m], acc.e.w[r][m], RMax(RAbs(acc.e.w[r][m]), RMul(sys.accW, acc.mag))))
         \cup Cl({"C07", "C05", "C09"}, "remaining-revive-budget", en.left = acc.st.budget)
         \cup Cl({"C05", "C09"}, "ends-at-the-first-converged-check", acc.stop = 0)
         \cup Cl({"C05", "C09"}, "early-end-is-justified", en.steps >= total \/ acc.last # "no")
         \cup acc.bad)))
      bad == bad1 \cup (IF ~good THEN acc.bad ELSE {})
      st2 == IF good THEN [acc.st EXCEPT !.w = IF shape THEN en.w ELSE @, !.amp = amp]
             ELSE [st EXCEPT !.w = IF shape THEN en.w ELSE @, !.known = FALSE, !.wild = wild \/ RLe(R(10000), amp), !.budget = IF shape THEN en.left ELSE @]
  IN [bad |-> bad, objs |-> objs,
      fnd |-> Put(fnd, ev.f, st2),
      held |-> IF ev.r # "" /\ shape THEN Put(held, ev.r, [vol |-> en.vol, frac |-> en.frac, diag |-> en.diag]) ELSE held,
      stat |-> [stat EXCEPT !.runs = @ + 1, !.steps = @ + (IF good THEN n ELSE 0), !.revives = @ + acc.rv, !.rvq1 = @ + acc.qs[1], !.rvq2 = @ + acc.qs[2], !.rvq3 = @ + acc.qs[3], !.rvq4 = @ + acc.qs[4], !.deaths = @ + acc.dd,
                             !.converged = @ + (IF conv THEN 1 ELSE 0), !.early = @ + (IF shape /\ en.steps < total THEN 1 ELSE 0),
                             !.copies = @ + (IF good /\ shape /\ Dead(sys, acc.e.J) # {} THEN 1 ELSE 0),
                             !.multi = @ + (IF shape /\ conv /\ Separated(en.frac) THEN 1 ELSE 0)]]

\* results and diagnostics handed out earlier, seen again
Held(ev) == Cur(Cl({"C11"}, "earlier-result-unchanged", ev.r \notin DOMAIN held
                \/ (EqV(ev.vol, held[ev.r].vol) /\ EqM(ev.frac, held[ev.r].frac) /\ ev.diag = held[ev.r].diag)))
\* two executions that have to agree exactly
Twin(ev) == [Cur(Cl(Range1(ev.props), ev.what, ev.a = ev.b)) EXCEPT !.stat = Bump(stat, "twins", 1)]
\* two executions that have to agree up to rounding
TwinNear(ev) == [Cur(Cl(Range1(ev.props), ev.what, Len(ev.a) = Len(ev.b) /\ \A i \in 1..Len(ev.a) : Near(ev.a[i], ev.b[i], ev.a[i])))
                 EXCEPT !.stat = Bump(stat, "twins", 1)]
\* random operations have to draw from the supplied generator (its state moves), and what they yield depends on it
Drew(ev) == Cur(Cl(Range1(ev.props), "draws-from-the-supplied-generator", \A k \in 1..Len(ev.must) : ev.must[k] => ev.did[k]))
Differ(ev) == Cur(Cl(Range1(ev.props), "outcome-depends-on-the-supplied-generator", ev.a # ev.b))
Crash(ev) == Cur({ev.what})
Reset(ev) == [Cur({}) EXCEPT !.objs = << >>, !.fnd = << >>, !.held = << >>, !.stat = Bump(stat, "scenarios", 1)]

(* ---- compiled parts used on their own (C22) ---------------------------------------------- *)
CompiledPart(o, kw) ==
  CASE o.t \in {"fh", "block"} -> [k |-> "i", part |-> InterPart(o, kw)]
    [] o.t \in {"ig", "pd"}    -> [k |-> "e", part |-> EntrPart(o)]
    [] o.t \in {"can", "gc"}   -> [k |-> "n", part |-> EnsPart(o)]
    [] o.t \in {"loc", "glo"}  -> [k |-> "c", part |-> ConPart(o, kw), np |-> 0, lam |-> <<>>, ce |-> <<>>, live |-> <<>>]
P22(name, ok) == Cl({"C22"}, name, ok)
P22x(ps, name, ok) == Cl({"C22"} \cup ps, name, ok)
Compile(ev) == LET c == CompiledPart(objs[ev.o], ev.kw) IN
  ToFnd(P22("part-is-compiled", ev.exc = <<>>)
        \cup (IF ev.exc # <<>> THEN {} ELSE P22("part-shows-its-numbers", (c.k \in {"i", "e", "c"} => ev.nf = c.part.nf) /\ (c.k \in {"e", "n"} => ev.nc = c.part.nc))),
        IF ev.exc = <<>> THEN Put(fnd, ev.p, c) ELSE fnd, stat)
Wide(X) == RMul(R(Len(X) + 1), MaxAbsM(X))
LamZero(con, np) == IF con.kind = "loc" THEN [a \in 1..Len(con.Ts) |-> V0(np)] ELSE V0(Len(con.Ts))
LamMag(con, lam) == IF con.kind = "loc" THEN MaxAbsM(lam) ELSE RMaxAbs(lam)
\* magnitudes of residues and of the force on the fields
ResMag(con, phi, J) == RMul(RAdd(RMul(Wide(con.Cs), Wide(phi)), RMaxAbs(con.Ts)), RAdd(R(1), RSum(J)))
ForceMag(con, lam, phi, J) == RAdd(LamMag(con, lam), RMul(RMul(R(2), con.kap), ResMag(con, phi, J)))
CallClauses(ev, p) ==
  CASE ev.m = "potential" -> P22x({"C06", "C18"}, "interaction-potential", NearM(ev.out, MatMul(p.part.chi, ev.phi), RMul(Wide(p.part.chi), Wide(ev.phi))))
    [] ev.m = "ivd" -> P22x({"C06"}, "interaction-volume-derivative", NearV(ev.out, [m \in 1..Len(ev.phi[1]) |-> RMul(Half, RDot(Col(ev.pot, m), Col(ev.phi, m)))], RMul(Wide(ev.pot), Wide(ev.phi))))
    [] ev.m = "coef" -> P22x({"C06"}, "incompressibility-coefficient", Near(ev.out, IncompCoef(p.part), RMul(R(p.part.nf * p.part.nf), RAdd(MaxAbsM(p.part.chi), RAbs(p.part.shift)))))
    [] ev.m = "partition" ->
         LET sys == [nc |-> p.part.nc, np |-> Len(ev.J), size |-> p.part.size, feat |-> p.part.feat]  b == Boltz(sys, ev.w)  Qs == PartFn(sys, b, ev.J) IN
         P22x({"C02", "C03", "C06", "C18"}, "boltzmann-factors", IsMat(ev.phi2, sys.nc, sys.np) /\ \A i \in 1..sys.nc : \A m \in 1..sys.np : NearRel(ev.phi2[i][m], b[i][m]))
         \cup P22x({"C02", "C18"}, "partition-functions", Len(ev.out) = sys.nc /\ \A i \in 1..sys.nc : NearRel(ev.out[i], Qs[i]))
    [] ev.m = "feat" ->
         LET sys == [nf |-> p.part.nf, nc |-> p.part.nc, np |-> Len(ev.phi[1]), feat |-> p.part.feat] IN P22x({"C06", "C18"}, "fractions-of-features", NearM(ev.out, FeatPhis(sys, ev.phi), Wide(ev.phi)))
    [] ev.m = "evd" ->
         LET x == [m \in 1..Len(ev.phi[1]) |-> RNeg(RSum([i \in 1..p.part.nc |-> RDiv(ev.phi[i][m], p.part.size[i])]))] IN P22x({"C06", "C18"}, "entropy-volume-derivative", NearV(ev.out, x, RMaxAbs(x)))
    [] ev.m = "normalize" ->
         LET n == p.part.nc  np == Len(ev.mask)  ens == p.part.ens
             f(i) == IF ens.kind = "can" THEN RDiv(ens.phi[i], ev.Q[i]) ELSE ens.act[i]
             x == TLCEval([i \in 1..n |-> LET fi == f(i) IN [m \in 1..np |-> RMul(RMul(fi, ev.phi[i][m]), R(ev.mask[m]))]])
             inc == [m \in 1..np |-> RMul(R(ev.mask[m]), RSub(RSum(Col(x, m)), R(1)))]
         IN P22x({IF ens.kind = "can" THEN "C02" ELSE "C03"}, "normalised-fractions", IsMat(ev.phi2, n, np) /\ \A i \in 1..n : \A m \in 1..np : NearRel(ev.phi2[i][m], x[i][m]))
            \cup P22x({IF ens.kind = "can" THEN "C02" ELSE "C03"}, "incompressibility", NearV(ev.out, inc, Wide(x)))
    [] ev.m = "initialize" -> {}
    [] ev.m = "prepare" ->
         LET con == p.part.con  live == [m \in 1..Len(ev.J) |-> REq(ev.mask[m], R(1))]
             e == ConEval(con, p.lam, ev.phi, ev.J, live)
             fm == ForceMag(con, p.lam, ev.phi, ev.J)
         IN P22x({"C04"}, "constraint-potential", NearM(ev.pot, e.pot, RMul(Wide(con.Cs), fm)))
            \cup P22x({"C04"}, "constraint-volume-derivative", NearV(ev.vd, e.vd, RMul(RMul(R(Len(con.Ts)), ResMag(con, ev.phi, ev.J)), fm)))
    [] ev.m = "evolve" -> P22x({"C04"}, "largest-residue", Near(ev.out, ConErr(p.part.con, p.ce), p.ce.mag))
CallNext(ev, p) ==
  CASE ev.m = "initialize" -> [p EXCEPT !.np = ev.np, !.lam = LamZero(p.part.con, ev.np)]
    [] ev.m = "prepare" -> LET live == TLCEval([m \in 1..Len(ev.J) |-> REq(ev.mask[m], R(1))]) IN
         [p EXCEPT !.live = live, !.ce = ConEval(p.part.con, p.lam, ev.phi, ev.J, live) @@ [mag |-> ResMag(p.part.con, ev.phi, ev.J)]]
    [] ev.m = "evolve" -> [p EXCEPT !.lam = ConEvolve(p.part.con, p.lam, p.ce, R(ev.step), p.live)]
    [] OTHER -> p
Call(ev) == LET p == fnd[ev.p] IN
  ToFnd(IF ev.exc # <<>> THEN P22("call-succeeds", FALSE)
        ELSE CallClauses(ev, p) \cup P22("constant-arguments-kept", \A k \in 1..Len(ev.kept) : ev.kept[k].a = ev.kept[k].b),
        IF ev.exc # <<>> THEN fnd ELSE Put(fnd, ev.p, CallNext(ev, p)), Bump(stat, "steps", 1))

Init == l = 1 /\ objs = << >> /\ fnd = << >> /\ held = << >> /\ stat = Stat0
Effect(ev) ==
  CASE ev.op = "obj"   -> Obj(ev)
    [] ev.op = "assign" -> ObjSet(ev)
    [] ev.op = "poke"  -> ObjPoke(ev)
    [] ev.op = "uniform" -> ObjUniform(ev)
    [] ev.op = "random" -> ObjRandom(ev)
    [] ev.op = "see"   -> See(ev)
    [] ev.op = "seearr" -> SeeArr(ev)
    [] ev.op = "new"   -> New(ev)
    [] ev.op = "set"   -> Set(ev)
    [] ev.op = "reinit" -> ReinitEv(ev)
    [] ev.op = "run"   -> Run(ev)
    [] ev.op = "compile" -> Compile(ev)
    [] ev.op = "call"  -> Call(ev)
    [] ev.op = "held"  -> Held(ev)
    [] ev.op = "twin"  -> Twin(ev)
    [] ev.op = "twinnear" -> TwinNear(ev)
    [] ev.op = "drew"  -> Drew(ev)
    [] ev.op = "differ" -> Differ(ev)
    [] ev.op = "crash" -> Crash(ev)
    [] ev.op = "reset" -> Reset(ev)
Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ \E r \in {Strict(Effect(Log[l]))} :
       /\ objs' = r.objs /\ fnd' = r.fnd /\ held' = r.held /\ stat' = r.stat
       /\ \E bad \in {r.bad \cup (IF l = Len(Log) THEN Cl({"C07"}, "revived-fields-cover-their-range", Spread(r.stat)) ELSE {})} :
            (bad # {}) => PrintT("@F " \o ToJson([line |-> l, op |-> Log[l].op, bad |-> bad]))
       /\ (l = Len(Log)) => PrintT("@D " \o ToJson(r.stat))
Spec == Init /\ [][Next]_vars
=============================================================================
