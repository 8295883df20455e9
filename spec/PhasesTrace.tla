----------------------------- MODULE PhasesTrace -----------------------------
(* Operations on collections of phases performed by the real code, against  *)
(* module Phases (property C13).  After every operation all collections that *)
(* exist are shown again.                                                    *)
EXTENDS Phases, Json, IOUtils
CONSTANT Props
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cols, stat
vars == <<l, cols, stat>>
Cl(name, ok) == IF ok THEN {} ELSE {name}
Put(f, k, v) == TLCEval([x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]])
Cur(bad) == [bad |-> bad, cols |-> cols, stat |-> stat]
Stat0 == [scenarios |-> 0, operations |-> 0, phases |-> 0, merged |-> 0, separated |-> 0, rejected |-> 0, ties |-> 0]
Val(s) == [cls |-> s.cls, vol |-> s.vol, frac |-> s.frac, info |-> s.info]
Same(a, b) == a.cls = b.cls /\ EqV(a.vol, b.vol) /\ EqM(a.frac, b.frac) /\ a.info = b.info
\* the derived attributes of a collection
Attributes(s) == LET c == Val(s)  n == Len(c.vol) IN
  /\ s.num = n /\ Len(c.frac) = n /\ (n = 0 \/ s.comps = Len(c.frac[1]))
  /\ Near(s.total, Total(c), Total(c)) /\ (n = 0 \/ NearV(s.mean, MeanFrac(c), MaxAbsM(c.frac)))
Made(ev) == [Cur(Cl("collection-created", ev.exc = <<>>) \cup (IF ev.exc = <<>> THEN
              Cl("collection-holds-the-given-values", Same(Val(ev.shows), ev.given)) \cup Cl("attributes", Attributes(ev.shows)) ELSE {}))
             EXCEPT !.cols = IF ev.exc = <<>> THEN Put(cols, ev.o, Val(ev.shows)) ELSE cols]
Shape(c, d) == Len(d.vol) = Len(d.frac) /\ Len(d.vol) > 0 /\ \A p \in 1..Len(d.frac) : Len(d.frac[p]) = Len(c.frac[1])
Clauses(c, d, ev) ==
  CASE ev.k = "normalize" ->
         Cl("normalised-to-one", Near(Total(d), R(1), R(0)))
    \cup Cl("normalise-keeps-volumes-with-compositions", NearV(d.vol, Normalized(c).vol, R(1)) /\ EqM(d.frac, c.frac))
    \cup Cl("mean-composition-conserved", SameMean(c, d))
    [] ev.k = "sort" ->
         Cl("sort-keeps-volumes-with-compositions", Multiset(c, d)) \cup Cl("sorted", InOrder(d))
    [] ev.k = "cluster" -> LET gs == Groups(c, ev.dist) IN
         Cl("mean-composition-conserved", SameMean(c, d))
    \cup Cl("total-volume-conserved", NearVol(Total(d), Total(c), c))
    \cup Cl("positive-volumes", \A p \in 1..Len(d.vol) : RLt(R(0), d.vol[p]))
    \cup Cl("clusters-sorted", Len(c.vol) < 2 \/ InOrder(d))
    \cup Cl("not-more-clusters-than-phases", Len(d.vol) <= Len(c.vol))
    \cup Cl("separated-groups-are-the-clusters", Separated(c, ev.dist, gs) => MatchesGroups(c, d, gs))
    [] ev.k = "result" -> Cl("same-phases", EqV(c.vol, d.vol) /\ EqM(c.frac, d.frac))
Did(ev) ==
  LET c == cols[ev.src] IN
  IF ev.exc # <<>> THEN Cur({"operation-succeeds"})
  ELSE LET d == Val(ev.shows)  ok == Shape(c, d)
           bad == Cl("result-shape", ok)
             \cup (IF ~ok THEN {} ELSE Clauses(c, d, ev) \cup Cl("attributes", Attributes(ev.shows)))
             \cup Cl("type-kept", d.cls = (IF ev.k = "result" THEN "PhasesResult" ELSE c.cls))
             \cup Cl("information-kept", d.info = (IF ev.k = "result" THEN ev.info ELSE c.info))
       IN [Cur(bad) EXCEPT !.cols = Put(cols, ev.o, d),
             !.stat = [stat EXCEPT !.operations = @ + 1, !.phases = @ + Len(c.vol), !.merged = @ + (Len(c.vol) - Len(d.vol)),
                        !.ties = @ + (IF \E p \in 1..Len(c.frac) : ~Keyed(c.frac[p]) THEN 1 ELSE 0),
                        !.separated = @ + (IF ev.k = "cluster" /\ Separated(c, ev.dist, Groups(c, ev.dist)) THEN 1 ELSE 0)]]
\* the user adds to the information of one collection; only this one changes
Edit(ev) == [Cur(Cl("edit-shows", ev.shows.info # cols[ev.o].info)) EXCEPT !.cols = Put(cols, ev.o, [cols[ev.o] EXCEPT !.info = ev.shows.info])]
See(ev) == Cur(Cl("original-unmodified", Same(Val(ev.shows), cols[ev.o])))
Bad(ev) == [Cur(Cl("inconsistent-collection-rejected", ev.exc # <<>> /\ \E k \in 1..Len(ev.exc) : ev.exc[k] = "ValueError")) EXCEPT !.stat.rejected = @ + 1]
(* ---- the shortcut (C19): normalise o sort o cluster o run ------------------------------- *)
Distinct(c, d) == \A p, q \in 1..NumPh(c) : p = q \/ RLt(Sq(d), Dist2(c.frac[p], c.frac[q]))
Shortcut(ev) ==
  IF ev.exc # <<>> THEN Cur({"shortcut-works-where-the-pipeline-does"})
  ELSE LET raw == Normalized(Val(ev.raw))  ref == Val(ev.ref)  out == Val(ev.out)
           gs == Groups(raw, R("1/100"))
           sep == Separated(raw, R("1/100"), gs)
           bad == Cl("same-phases-as-the-pipeline", NearV(out.vol, ref.vol, R(0)) /\ NearM(out.frac, ref.frac, R(0)))
             \cup Cl("phases-are-the-groups-of-the-compartments", ~Shape(raw, out) \/ NumPh(raw) < 2 \/ (sep => MatchesGroups(raw, out, gs)))
             \cup Cl("result-shape", Shape(raw, out))
             \cup Cl("volumes-add-up-to-one", Near(Total(out), R(1), R(0)))
             \cup Cl("mean-composition-of-the-run", ~Shape(raw, out) \/ SameMean(raw, out))
             \cup Cl("phases-sorted", InOrder(out))
             \cup Cl("phases-distinct", sep => Distinct(out, R("1/100")))
             \cup Cl("information-is-the-run", ev.outinfo = ev.info /\ ev.isinfo)
       IN [Cur(bad) EXCEPT !.stat = [stat EXCEPT !.operations = @ + 1, !.phases = @ + NumPh(out), !.merged = @ + (NumPh(raw) - NumPh(out)),
                                     !.separated = @ + (IF sep /\ Cardinality(gs) > 1 THEN 1 ELSE 0)]]
Option(ev) == [Cur(Cl("option-takes-effect", ev.a # ev.b)) EXCEPT !.stat.operations = @ + 1]
Inputs(ev) == Cur(Cl("inputs-unmodified", ev.same))
Effect(ev) ==
  CASE ev.op = "made" -> Made(ev)
    [] ev.op = "did" -> Did(ev)
    [] ev.op = "edit" -> Edit(ev)
    [] ev.op = "see" -> See(ev)
    [] ev.op = "bad" -> Bad(ev)
    [] ev.op = "shortcut" -> Shortcut(ev)
    [] ev.op = "effect" -> Option(ev)
    [] ev.op = "inputs" -> Inputs(ev)
    [] ev.op = "crash" -> Cur({ev.what})
    [] ev.op = "reset" -> [Cur({}) EXCEPT !.cols = << >>, !.stat.scenarios = @ + 1]
Init == l = 1 /\ cols = << >> /\ stat = Stat0
Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ \E r \in {Strict(Effect(Log[l]))} :
       /\ cols' = r.cols /\ stat' = r.stat
       /\ (r.bad # {}) => PrintT("@F " \o ToJson([line |-> l, op |-> Log[l].op, bad |-> r.bad]))
       /\ (l = Len(Log)) => PrintT("@D " \o ToJson(r.stat))
Spec == Init /\ [][Next]_vars
=============================================================================
