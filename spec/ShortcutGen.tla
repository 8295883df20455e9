----------------------------- MODULE ShortcutGen -----------------------------
(***************************************************************************)
(* Calls of the shortcut (C19): which options are passed, and in which     *)
(* form the arguments are given.  The shortcut is the composition          *)
(*   normalise o sort o cluster o run o new                                *)
(* and the effect of every option passed is that of the finder.  A call is *)
(* built one option at a time; an option that is not passed has the        *)
(* finder's default.  The calls are emitted for replay.                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json
CONSTANTS Most           \* options passed at most
Options == {"num_part", "max", "tol", "interval", "std", "accJ", "accW", "bound", "thr", "scaler", "revive", "shift", "progress", "constraints", "ratio", "kappa", "criterion"}
Sizes == {"omitted", "none", "scalar", "array", "list"}
Chis  == {"matrix", "scalar", "asymmetric", "integers"}
Means == {"array", "list", "scalar"}
VARIABLES opts, form
vars == <<opts, form>>
Init == opts = {} /\ form \in [sizes : Sizes, chis : Chis, phi : Means]
Pass(o) == /\ o \notin opts /\ Cardinality(opts) < Most
           /\ (o \in {"ratio", "kappa"} => "constraints" \in opts)
           /\ opts' = opts \cup {o} /\ UNCHANGED form
Next == \E o \in Options : Pass(o)
Spec == Init /\ [][Next]_vars
\* every option can be passed in every form
TypeOK == opts \subseteq Options /\ Cardinality(opts) <= Most
Emit == PrintT("@H " \o ToJson([opts |-> opts, form |-> form]))
=============================================================================
