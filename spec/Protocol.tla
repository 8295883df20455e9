------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* How a finder drives the parts it was given (docs: base classes of       *)
(* interaction, entropy, ensemble and constraint).  Within an iteration:   *)
(*   partition -> normalize -> feat        once each, in this order        *)
(*   prepare(c)                            once, after feat                *)
(*   pot, coef, ivd, evd                   after feat (ivd after pot)      *)
(*   cpot(c), cvd(c)                       after prepare(c)                *)
(*   evolve(c)                             once, after everything was read *)
(* An iteration is over when every constraint has evolved; the next one    *)
(* starts with partition.  A call is a record [m, c] (c = "" unless the    *)
(* call goes to a constraint).                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

P0 == [stage |-> "start", prep |-> {}, evol |-> {}, pot |-> FALSE]
Allowed(p, call, cons) ==
  CASE call.m = "partition" -> p.stage = "start"
    [] call.m = "normalize" -> p.stage = "parted"
    [] call.m = "feat"      -> p.stage = "normed"
    [] call.m = "prepare"   -> p.stage = "ready" /\ call.c \in cons /\ call.c \notin p.prep
    [] call.m \in {"pot", "coef", "evd"} -> p.stage = "ready"
    [] call.m = "ivd"       -> p.stage = "ready" /\ p.pot
    [] call.m \in {"cpot", "cvd"} -> p.stage = "ready" /\ call.c \in p.prep /\ call.c \notin p.evol
    [] call.m = "evolve"    -> p.stage = "ready" /\ call.c \in p.prep /\ call.c \notin p.evol
    [] OTHER -> FALSE
After(p, call) ==
  CASE call.m = "partition" -> [p EXCEPT !.stage = "parted"]
    [] call.m = "normalize" -> [p EXCEPT !.stage = "normed"]
    [] call.m = "feat"      -> [p EXCEPT !.stage = "ready"]
    [] call.m = "prepare"   -> [p EXCEPT !.prep = @ \cup {call.c}]
    [] call.m = "pot"       -> [p EXCEPT !.pot = TRUE]
    [] call.m = "evolve"    -> [p EXCEPT !.evol = @ \cup {call.c}]
    [] OTHER -> p
Done(p, cons) == p.stage = "ready" /\ p.evol = cons
RECURSIVE Follows(_, _, _, _)
Follows(p, calls, k, cons) == IF k > Len(calls) THEN Done(p, cons)
   ELSE Allowed(p, calls[k], cons) /\ Follows(After(p, calls[k]), calls, k + 1, cons)
Conforms(calls, cons) == Follows(P0, calls, 1, cons)
=============================================================================
