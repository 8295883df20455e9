----------------------------- MODULE ThermoTrace -----------------------------
(***************************************************************************)
(* Validation of the free energy classes: their values, derivatives,       *)
(* chemical potentials and stability, evaluated by the real code, against  *)
(* module Thermo; the parameters they are evaluated with follow Params.    *)
(***************************************************************************)
EXTENDS Params, Thermo, Json, IOUtils

CONSTANT Props
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fe, stat
vars == <<l, fe, stat>>

Cl(ps, name, ok) == IF (ps \cap Props) # {} /\ ~ok THEN {name} ELSE {}
Stat0 == [scenarios |-> 0, evaluations |-> 0, points |-> 0, zeros |-> 0, unstable |-> 0, stable |-> 0, rejected |-> 0, batches |-> 0]
Put(f, k, v) == TLCEval([x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]])
Cur(bad) == [bad |-> bad, fe |-> fe, stat |-> stat]

(* ---- construction and assignment: an interaction and an entropy --------------- *)
SizesArg(a) == IF a.d = <<>> THEN Scalar(R(1)) ELSE a
Make(ev) ==
  CASE ev.t \in {"fh", "parts"} -> [i |-> Fh(ev.n, ev.chis), e |-> Ig(ev.n, SizesArg(ev.sizes))]
    [] ev.t = "uniform" -> [i |-> [t |-> "fh", n |-> ev.n, chi |-> UniformMat(ev.n, ev.chi, ev.vanish)], e |-> Ig(ev.n, SizesArg(ev.sizes))]
    [] ev.t = "random" -> [i |-> [t |-> "fh", n |-> ev.n, chi |-> ev.shows], e |-> Ig(ev.n, SizesArg(ev.sizes))]
    [] ev.t = "block"   -> [i |-> Block(ev.nf, ev.chis, ev.per), e |-> Pd(ev.nf, SizesArg(ev.sizes), ev.per)]
    [] ev.t = "blockig" -> [i |-> Block(ev.nf, ev.chis, ev.per), e |-> Ig(SumI(BPer(ev.per, ev.nf)), SizesArg(ev.sizes))]
    [] ev.t = "user" -> [i |-> [Fh(ev.n, ev.chis) EXCEPT !.t = "user"] @@ [cub |-> BVec(ev.cub, ev.n)], e |-> Ig(ev.n, SizesArg(ev.sizes))]
MixOf(o) == IF o.i.t = "user" THEN [chi |-> o.i.chi, size |-> o.e.size, cub |-> o.i.cub] ELSE Mixture(ChiOf(o.i), o.e.size)
RandomOK(ev) == ev.t # "random" \/ (IsMat(ev.shows, ev.n, ev.n) /\ FinM(ev.shows)
      /\ \A i, j \in 1..ev.n : REq(ev.shows[i][j], ev.shows[j][i]) /\ (ev.vanish => REq(ev.shows[i][i], R(0))))
New(ev) == LET o == Make(ev) IN
  [Cur(Cl({"C17", "C14", "C18", "C20"}, "free-energy-created", ev.exc = <<>>) \cup Cl({"C17"}, "random-matrix", RandomOK(ev)))
   EXCEPT !.fe = IF ev.exc = <<>> THEN Put(fe, ev.o, o) ELSE fe]
Mismatch(ev) == Cur(Cl({"C17"}, "mismatching-interaction-and-entropy-rejected", Range1(ev.exc) \cap {"ComponentNumberError"} # {}))
Assign(ev) ==
  LET o == fe[ev.o]
      part == IF ev.a = "sizes" THEN o.e ELSE o.i
      ok == SetOK(part, ev.a, ev.arg)
      o2 == IF ~ok THEN o ELSE IF ev.a = "sizes" THEN [o EXCEPT !.e = SetTo(o.e, ev.a, ev.arg)] ELSE [o EXCEPT !.i = SetTo(o.i, ev.a, ev.arg)]
      m == MixOf(o2)
  IN [Cur(Cl({"C17"}, "accepts-or-rejects-by-shape", (ev.exc = <<>>) = ok)
          \cup Cl({"C17"}, "shows-the-assigned-values", NearM(ev.chis, m.chi, MaxAbsM(m.chi)) /\ NearV(ev.sizes, m.size, RMaxAbs(m.size))))
      EXCEPT !.fe = Put(fe, ev.o, o2)]

(* ---- evaluation of a batch of compositions ---------------------------------------- *)
Mag(mix, phi) == RAdd(MaxAbsM(mix.chi), RMaxOf([i \in 1..N(mix) |-> IF REq(phi[i], R(0)) THEN R(1) ELSE RDiv(R(1), RMul(mix.size[i], phi[i]))]))
Logs(mix) == RMul(R(50), RAdd(R(1), RAdd(MaxAbsM(mix.chi), RMaxOf([i \in 1..N(mix) |-> RDiv(R(1), mix.size[i])]))))
Pos(phi, i) == ~REq(phi[i], R(0))
RowClauses(ps14, mix, ev, x) ==
  LET phi == ev.phi[x]  n == N(mix)  k == ev.k  lg == Logs(mix)  hm == Mag(mix, phi)
      jac == Jac(mix, phi)  mu == Mu(mix, phi)  oth == Others(n, k)
      ps15 == {"C15"} \cup (ps14 \cap {"C20"})
      full == \A i \in 1..n : Pos(phi, i)
  IN Cl(ps14, "free-energy", Near(ev.f[x], FE(mix, phi), lg))
     \cup Cl(ps14, "jacobian", Len(ev.jac[x]) = n /\ \A i \in 1..n : IF Pos(phi, i) THEN Near(ev.jac[x][i], jac[i], lg) ELSE ev.jac[x][i] = "-inf")
     \cup Cl(ps14, "reduced-jacobian", Len(ev.jr[x]) = n - 1 /\ \A a \in 1..(n - 1) : (Pos(phi, k) /\ Pos(phi, oth[a])) => Near(ev.jr[x][a], RSub(jac[oth[a]], jac[k]), lg))
     \cup Cl(ps14, "hessian", IsMat(ev.hess[x], n, n) /\ \A i, j \in 1..n : IF i # j \/ Pos(phi, i) THEN Near(ev.hess[x][i][j], HessEntry(mix, phi, i, j), hm) ELSE ev.hess[x][i][j] = "inf")
     \cup (IF full THEN Cl(ps14, "reduced-hessian", IF n = 1 THEN Len(ev.hr[x]) = 0 ELSE NearM(ev.hr[x], HessRed(mix, phi, k), hm)) ELSE {})
     \cup Cl(ps15 \cup {"C18"}, "chemical-potentials", Len(ev.mu[x]) = n /\ \A i \in 1..n : Pos(phi, i) => Near(ev.mu[x][i], mu[i], lg))
     \cup Cl({"C15"}, "exchange-chemical-potentials", Len(ev.ex[x]) = n /\ (Pos(phi, k) => \A i \in 1..n : Pos(phi, i) =>
               Near(ev.ex[x][i], RSub(jac[i], jac[k]), lg) /\ Near(ev.ex[x][i], RSub(ev.mu[x][i], ev.mu[x][k]), RMul(R(3), lg))
               /\ REq(ev.ex[x][k], R(0))))
     \cup Cl({"C15"}, "pressure", Pos(phi, k) => Near(ev.pr[x], RNeg(mu[k]), lg))
     \cup Cl({"C15"}, "potentials-sum-to-free-energy", REq(RSum(phi), R(1)) => \* incompressible
               Near(RSum([i \in 1..n |-> IF Pos(phi, i) THEN RMul(phi[i], ev.mu[x][i]) ELSE R(0)]), ev.f[x], lg))
Eval(ev) ==
  LET o == fe[ev.o]  mix == MixOf(o)  n == N(mix)  cnt == Len(ev.phi)
      ps14 == {"C14", "C17"} \cup (IF o.i.t = "block" THEN {"C18"} ELSE IF o.i.t = "user" THEN {"C20"} ELSE {})
      mushape == IF ev.lead = <<>> THEN {<<n>>, <<1, n>>} ELSE {ev.lead \o <<n>>}
      prshape == IF ev.lead = <<>> THEN {<<>>, <<1>>} ELSE {ev.lead}
      ok14 == ev.exc = <<>> /\ ev.sh.f = ev.lead /\ ev.sh.jac = ev.lead \o <<n>> /\ ev.sh.hess = ev.lead \o <<n, n>>
              /\ ev.sh.jr = ev.lead \o <<n - 1>> /\ ev.sh.hr = ev.lead \o <<n - 1, n - 1>>
      ok15 == ev.exc = <<>> /\ ev.sh.mu \in mushape /\ ev.sh.ex = ev.lead \o <<n>> /\ ev.sh.pr \in prshape
      bad == Cl(ps14 \cup {"C15"}, "evaluates", ev.exc = <<>>)
        \cup (IF ev.exc # <<>> THEN {} ELSE
             Cl(ps14, "batch-shape", ok14) \cup Cl({"C15"}, "batch-shape-of-potentials", ok15)
        \cup Cl({"C14", "C15"}, "input-unchanged", ev.same)
        \cup (IF ok14 /\ ok15 THEN UNION {RowClauses(ps14, mix, ev, x) : x \in 1..cnt} ELSE {}))
  IN [Cur(bad) EXCEPT !.stat = [stat EXCEPT !.evaluations = @ + 1, !.points = @ + cnt, !.batches = @ + (IF Len(ev.lead) > 1 THEN 1 ELSE 0),
        !.zeros = @ + Cardinality({x \in 1..cnt : \E i \in 1..n : ~Pos(ev.phi[x], i)})]]

(* ---- stability ---------------------------------------------------------------------- *)
Modes(ev) ==
  LET mix == MixOf(fe[ev.o])  cnt == Len(ev.phi)
      want == TLCEval([x \in 1..cnt |-> Unstable(mix, ev.phi[x], ev.conserved)])
      ok == ev.exc = <<>> /\ ev.sh = ev.lead /\ ev.shs = ev.lead /\ Len(ev.modes) = cnt /\ Len(ev.stable) = cnt
      bad == Cl({"C16"}, "stability-evaluates", ok)
        \cup (IF ~ok THEN {} ELSE
             Cl({"C16"}, "number-of-unstable-modes", \A x \in 1..cnt : ev.modes[x] \in want[x])
        \cup Cl({"C16"}, "stable-iff-no-unstable-mode", \A x \in 1..cnt : ev.stable[x] = (ev.modes[x] = 0)))
  IN [Cur(bad) EXCEPT !.stat = [stat EXCEPT !.evaluations = @ + 1, !.points = @ + cnt,
        !.unstable = @ + (IF ok THEN Cardinality({x \in 1..cnt : ev.modes[x] > 0}) ELSE 0),
        !.stable = @ + (IF ok THEN Cardinality({x \in 1..cnt : ev.modes[x] = 0}) ELSE 0)]]

(* ---- equilibration error --------------------------------------------------------------- *)
Sq(x) == RMul(x, x)
Pow3(x) == RMul(x, RMul(x, x))
LeNear(a, b, s) == RLe(a, b) \/ Near(a, b, s)
NormOK(got, d, ord, sc) ==    \* got is the norm of the vector d
  LET s == RMul(sc, R(Len(d))) IN
  CASE ord = "1" -> Near(got, RSum([i \in 1..Len(d) |-> RAbs(d[i])]), s)
    [] ord = "inf" -> Near(got, RMaxAbs(d), s)
    [] ord = "-inf" -> (\A i \in 1..Len(d) : LeNear(got, RAbs(d[i]), s)) /\ \E i \in 1..Len(d) : Near(got, RAbs(d[i]), s)
    [] ord = "3" -> RLe(R(0), got) /\ LET e == RMul(Eps, RAdd(R(1), s)) t == RSum([i \in 1..Len(d) |-> Pow3(RAbs(d[i]))]) IN
                  RLe(t, Pow3(RAdd(got, e))) /\ (RLe(got, e) \/ RLe(Pow3(RSub(got, e)), t))
    [] OTHER -> RLe(R(0), got) /\ LET e == RMul(Eps, RAdd(R(1), s)) t == RDot(d, d) IN
                  RLe(t, Sq(RAdd(got, e))) /\ (RLe(got, e) \/ RLe(Sq(RSub(got, e)), t))
\* norms of matrices: the largest (smallest) sum of magnitudes over a column ("1") or row
Total1(v) == RSum([i \in 1..Len(v) |-> RAbs(v[i])])
MatNormOK(got, d, ord, sc) ==
  IF ord = "1" THEN NormOK(got, [i \in 1..Len(d[1]) |-> Total1(Col(d, i))], "inf", RMul(sc, R(Len(d))))
  ELSE NormOK(got, [p \in 1..Len(d) |-> Total1(d[p])], ord, RMul(sc, R(Len(d[1]))))
Equil(ev) ==
  LET mix == MixOf(fe[ev.o])  n == N(mix)  P == Len(ev.phi)
      mu == TLCEval([p \in 1..P |-> Mu(mix, ev.phi[p])])
      mean == TLCEval([i \in 1..n |-> RDiv(RSum([p \in 1..P |-> mu[p][i]]), R(P))])
      d == TLCEval([p \in 1..P |-> [i \in 1..n |-> RSub(mu[p][i], mean[i])]])
      sc == Logs(mix)
      flat == LET F[p \in 0..P] == IF p = 0 THEN <<>> ELSE F[p - 1] \o d[p] IN F[P]
      ok == ev.exc = <<>> /\ CASE ev.axis = "1" -> Len(ev.err) = P /\ \A p \in 1..P : NormOK(ev.err[p], d[p], ev.order, sc)
                               [] ev.axis = "0" -> Len(ev.err) = n /\ \A i \in 1..n : NormOK(ev.err[i], Col(d, i), ev.order, sc)
                               [] ev.order # "2" -> Len(ev.err) = 1 /\ MatNormOK(ev.err[1], d, ev.order, sc)
                               [] OTHER -> Len(ev.err) = 1 /\ NormOK(ev.err[1], flat, ev.order, sc)
  IN [Cur(Cl({"C15"}, "equilibration-error", ok)
          \cup Cl({"C15"}, "single-phase-is-balanced", (P = 1 /\ ev.exc = <<>>) => \A i \in 1..Len(ev.err) : Within(ev.err[i], R(0), RMul(Eps, sc))))
      EXCEPT !.stat.evaluations = @ + 1]

\* fractions that have to be rejected by every method
Reject(ev) == [Cur(Cl({"C14"}, "invalid-fractions-rejected", \A i \in 1..Len(ev.excs) : Range1(ev.excs[i]) \cap {"VolumeFractionError"} # {})) EXCEPT !.stat.rejected = @ + 1]
Crash(ev) == Cur({ev.what})
Reset(ev) == [Cur({}) EXCEPT !.fe = << >>, !.stat.scenarios = @ + 1]
Effect(ev) ==
  CASE ev.op = "fe"     -> New(ev)
    [] ev.op = "fix"    -> Mismatch(ev)
    [] ev.op = "assign" -> Assign(ev)
    [] ev.op = "eval"   -> Eval(ev)
    [] ev.op = "modes"  -> Modes(ev)
    [] ev.op = "equil"  -> Equil(ev)
    [] ev.op = "reject" -> Reject(ev)
    [] ev.op = "crash"  -> Crash(ev)
    [] ev.op = "reset"  -> Reset(ev)
Init == l = 1 /\ fe = << >> /\ stat = Stat0
Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ \E r \in {Strict(Effect(Log[l]))} :
       /\ fe' = r.fe /\ stat' = r.stat
       /\ (r.bad # {}) => PrintT("@F " \o ToJson([line |-> l, op |-> Log[l].op, bad |-> r.bad]))
       /\ (l = Len(Log)) => PrintT("@D " \o ToJson(r.stat))
Spec == Init /\ [][Next]_vars
=============================================================================
