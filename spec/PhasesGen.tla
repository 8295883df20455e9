------------------------------ MODULE PhasesGen ------------------------------
(***************************************************************************)
(* All sequences of operations on collections of phases up to Depth, from  *)
(* a catalogue of initial collections.  Checks on the specification that   *)
(* the operations conserve the mixture, and emits the sequences for replay *)
(* into the real code.                                                     *)
(***************************************************************************)
EXTENDS Phases, Json
CONSTANTS Depth, Cut
VARIABLES hist, c0, cols
vars == <<hist, c0, cols>>

Q(s) == [i \in 1..Len(s) |-> R(s[i])]
Mk(v, f) == [cls |-> "Phases", vol |-> Q(v), frac |-> [p \in 1..Len(f) |-> Q(f[p])], info |-> ""]
Catalogue == <<
  Mk(<<"1">>, <<<<"1/4", "3/4">>>>),
  Mk(<<"1", "3">>, <<<<"1/4", "3/4">>, <<"7/8", "1/8">>>>),
  Mk(<<"2", "1", "1/2">>, <<<<"1/8", "7/8">>, <<"129/1024", "895/1024">>, <<"7/8", "1/8">>>>),
  Mk(<<"1/2", "3", "1/4", "5">>, <<<<"1/8", "2/8", "5/8">>, <<"5/8", "1/8", "2/8">>, <<"641/1024", "127/1024", "2/8">>, <<"2/8", "5/8", "1/8">>>>),
  Mk(<<"1", "1", "1", "2">>, <<<<"1/8", "2/8", "5/8">>, <<"1/8", "2/8", "5/8">>, <<"1/8", "2/8", "5/8">>, <<"2/8", "1/8", "5/8">>>>),
  Mk(<<"8", "1/8", "1/8", "1/8", "3">>, <<<<"1/2", "1/8", "3/8">>, <<"515/1024", "127/1024", "382/1024">>, <<"1/8", "1/2", "3/8">>, <<"1/8", "513/1024", "383/1024">>, <<"3/8", "1/8", "1/2">>>>) >>
Ops == {"normalize", "sort", "cluster", "result", "again"}
\* "result" attaches information (PhasesResult.from_phases), "again" clusters with a cut-off of zero
Apply(c, op) ==
  CASE op = "normalize" -> Normalized(c)
    [] op = "sort" -> Sorted(c)
    [] op = "cluster" -> Clustered(c, R(Cut))
    [] op = "again" -> Clustered(c, R("1/1000000"))
    [] op = "result" -> [c EXCEPT !.cls = "PhasesResult", !.info = "tag"]
Init == \E k \in 1..Len(Catalogue) : c0 = k /\ cols = <<Catalogue[k]>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops, src \in 1..Len(cols) : \E r \in {Strict(Apply(cols[src], op))} :
             /\ hist' = Append(hist, [op |-> op, src |-> src])
             /\ cols' = Append(cols, r) /\ UNCHANGED c0
Spec == Init /\ [][Next]_vars

Lst == cols[Len(cols)]
Org == cols[hist[Len(hist)].src]
Conserves == hist # <<>> => Strict(
   /\ NearV(MeanFrac(Lst), MeanFrac(Catalogue[c0]), R(0))
   /\ (\E k \in 1..Len(hist) : hist[k].op = "normalize") \/ Near(Total(Lst), Total(Catalogue[c0]), R(0))
   /\ hist[Len(hist)].op = "normalize" => Near(Total(Lst), R(1), R(0))
   /\ hist[Len(hist)].op \in {"sort", "cluster", "again"} => (NumPh(Lst) < 2 \/ InOrder(Lst))
   /\ hist[Len(hist)].op = "sort" => Multiset(Org, Lst)
   /\ Separated(Catalogue[c0], R(Cut), Groups(Catalogue[c0], R(Cut)))
   /\ hist[Len(hist)].op = "cluster" => (NumPh(Org) < 2 \/ MatchesGroups(Org, Lst, Groups(Org, R(Cut))))
   /\ Lst.cls = (IF hist[Len(hist)].op = "result" THEN "PhasesResult" ELSE Org.cls))
\* the second application changes nothing
Idempotent == hist # <<>> /\ hist[Len(hist)].op \in {"sort", "cluster"} => Strict(Apply(Lst, hist[Len(hist)].op) = Lst)
Emit == hist = <<>> \/ PrintT("@H " \o ToJson([c |-> c0, vol |-> Catalogue[c0].vol, frac |-> Catalogue[c0].frac, h |-> hist]))
=============================================================================
