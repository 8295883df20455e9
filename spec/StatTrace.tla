------------------------------ MODULE StatTrace ------------------------------
(* Samples recorded from the real code against Sampling.tla.                  *)
EXTENDS Sampling, Json, IOUtils
CONSTANT Props
VARIABLES l, stat
Log == ndJsonDeserialize(IOEnv.TRACE)
Cl(ps, name, ok) == IF ps \cap Props = {} \/ ok THEN {} ELSE {name}
P == {"C21"}
Num(n, m, cols) == Len(cols) = n /\ \A i \in 1..n : Len(cols[i]) = m /\ FinV(cols[i])

Simplex(ev) ==
  IF ev.exc # <<>> THEN Cl(P, "composition-drawn", FALSE)
  ELSE IF ~Num(ev.n, ev.m, ev.cols) THEN Cl(P, "composition-has-one-fraction-per-component", FALSE)
  ELSE LET s == SimplexSample(ev.n, ev.m, ev.cols) IN
       Cl(P, "fractions-add-up-to-one", s.sum) \cup Cl(P, "fractions-not-negative", s.positive)
  \cup Cl(P, "uniform-mean", s.mean) \cup Cl(P, "uniform-second-moments", s.second) \cup Cl(P, "uniform-cross-moments", s.cross) \cup Cl(P, "uniform-tails", s.tails)
Normal(ev, cols) ==
  LET s == NormalSample(cols, R(ev.mean), R(ev.std)) IN
       Cl(P, "normal-mean", s.mean) \cup Cl(P, "normal-standard-deviation", s.std) \cup Cl(P, "normal-third-moment", s.skew)
  \cup Cl(P, "normal-fourth-moment", s.kurt) \cup Cl(P, "normal-shape", s.shape) \cup Cl(P, "normal-extremes", s.far) \cup Cl(P, "independent-numbers", s.independent)
Fields(ev) ==
  IF ev.exc # <<>> THEN Cl(P, "fields-drawn", FALSE)
  ELSE IF ~Num(ev.n, ev.m, ev.cols) THEN Cl(P, "fields-have-their-shape", FALSE) ELSE Normal(ev, ev.cols)
\* ev.ms[i][j]: entry i, j of the matrix in all draws
Entries(ev) == LET n == ev.n F[i \in 0..n] == IF i = 0 THEN <<>> ELSE F[i - 1] \o SubSeq(ev.ms[i], IF ev.vanish THEN i + 1 ELSE i, n) IN F[n]
Matrices(ev) ==
  IF ev.exc # <<>> THEN Cl(P, "matrix-drawn", FALSE)
  ELSE IF ~(Len(ev.ms) = ev.n /\ \A i \in 1..ev.n : Num(ev.n, ev.m, ev.ms[i])) THEN Cl(P, "matrix-is-square", FALSE)
  ELSE Cl(P, "matrix-symmetric", \A i, j \in 1..ev.n : EqV(ev.ms[i][j], ev.ms[j][i]))
  \cup Cl(P, "diagonal-vanishes-as-asked", \A i \in 1..ev.n : ev.vanish => \A k \in 1..ev.m : REq(ev.ms[i][i][k], R(0)))
  \cup (IF Entries(ev) = <<>> THEN {} ELSE Normal(ev, Entries(ev)))

Bad(ev) ==
  CASE ev.op = "simplex"  -> Simplex(ev)
    [] ev.op = "fields"   -> Fields(ev)
    [] ev.op = "matrices" -> Matrices(ev)
    [] ev.op = "crash"    -> {ev.what}
    [] ev.op = "reset"    -> {}
Init == l = 1 /\ stat = [scenarios |-> 0, draws |-> 0]
Next ==
  /\ l <= Len(Log) /\ l' = l + 1
  /\ LET ev == Log[l] IN
     /\ stat' = IF ev.op \in {"simplex", "fields", "matrices"} THEN [scenarios |-> stat.scenarios + 1, draws |-> stat.draws + ev.m] ELSE stat
     /\ \E bad \in {Strict(Bad(ev))} : bad # {} => PrintT("@F " \o ToJson([line |-> l, op |-> ev.op, bad |-> bad]))
  /\ (l = Len(Log)) => PrintT("@D " \o ToJson(stat'))
Spec == Init /\ [][Next]_<<l, stat>>
=============================================================================
