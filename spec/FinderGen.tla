------------------------------ MODULE FinderGen ------------------------------
(***************************************************************************)
(* Histories of public operations on finders and their shared inputs, for  *)
(* replay into the real code.  The state is an abstraction of module       *)
(* Finder: which versions of the parts a finder holds and, for fields,     *)
(* volumes, multipliers and budget, where their values come from.  TLC     *)
(* explores it breadth first; VIEW decides which histories count as        *)
(* different, so that one shortest history is emitted for every abstract   *)
(* state reached by every operation (or pair of operations).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Finders,      \* names of finders
          Depth,        \* longest history
          Shared        \* TRUE: also operations on the shared objects and held results

VARIABLES hist, st
vars == <<hist, st>>

Op(k, f, a, keep) == [k |-> k, f |-> f, a |-> a, keep |-> keep]
New0(c) == [i |-> "Ia", e |-> "Ea", n |-> "Na", c |-> c, fld |-> "random", vol |-> "one", mul |-> "zero", bud |-> "full"]
Exists(f) == st[f].i # ""
Absent == [i |-> "", e |-> "", n |-> "", c |-> "", fld |-> "", vol |-> "", mul |-> "", bud |-> ""]
ConSets == {"", "Cl", "Cg", "Cl,Cg", "Cg,Cl", "Cl,Cl"}
BadConSets == {"Cx", "Cl,Cx", "Cx,Cg"}
Versions(x) == IF x = "i" THEN {"Ia", "Ib"} ELSE IF x = "e" THEN {"Ea", "Eb"} ELSE {"Na", "Nb", "Ng"}
BadOf(x) == IF x = "i" THEN {"Ix"} ELSE IF x = "e" THEN {"Ex", "Ey"} ELSE {"Nx"}
Fill(s, keep) == IF keep THEN s ELSE [s EXCEPT !.bud = "full"]

Do(op, f, s) == hist' = Append(hist, op) /\ st' = [st EXCEPT ![f] = s]
Create == \E f \in Finders : \E c \in {"", "Cl", "Cl,Cg"} : ~Exists(f) /\ Do(Op("new", f, c, FALSE), f, New0(c))
Replace == \E f \in Finders, x \in {"i", "e", "n"}, keep \in BOOLEAN : Exists(f) /\ \E v \in Versions(x) :
             Do(Op("set", f, v, keep), f, Fill([st[f] EXCEPT ![x] = v], keep))
ReplaceCons == \E f \in Finders, keep \in BOOLEAN, c \in ConSets : Exists(f)
             /\ Do(Op("setc", f, c, keep), f, Fill([st[f] EXCEPT !.c = c, !.mul = "zero"], keep))
Reinit == \E f \in Finders : Exists(f) /\
             \/ \E a \in {"random", "omegas", "phis"} : Do(Op("reinit", f, a, FALSE), f,
                    [st[f] EXCEPT !.fld = a, !.vol = "one", !.mul = "zero", !.bud = "full"])
             \/ Do(Op("reinit", f, "cons", FALSE), f, [st[f] EXCEPT !.mul = "zero"])
             \/ Do(Op("reinit", f, "revive", FALSE), f, [st[f] EXCEPT !.bud = "full"])
Run == \E f \in Finders, a \in {"", "over"} : Exists(f)
             /\ Do(Op("run", f, a, FALSE), f, [st[f] EXCEPT !.fld = "run", !.vol = "run", !.bud = "used",
                                               !.mul = IF st[f].c = "" THEN "zero" ELSE "run"])
\* operations that have to be rejected and change nothing
Reject == \E f \in Finders : Exists(f) /\
             \/ \E x \in {"i", "e", "n"}, keep \in BOOLEAN : \E v \in BadOf(x) : Do(Op("set", f, v, keep), f, st[f])
             \/ \E c \in BadConSets, keep \in BOOLEAN : Do(Op("setc", f, c, keep), f, st[f])
             \/ \E c \in {"Cg", "Cl,Cg"}, keep \in BOOLEAN : Do(Op("setk", f, c, keep), f, st[f])   \* options that are not one set for each
             \/ \E a \in {"omegasx", "phisx"} : Do(Op("reinit", f, a, FALSE), f, st[f])
             \/ \E v \in {"Ix", "Ex", "Ey", "Nx", "Cx"} : Do(Op("newbad", f, v, FALSE), f, st[f])
\* operations of the user on objects, arrays and results
Meddle == /\ Shared /\ \E f \in Finders : Exists(f)
          /\ \E op \in {Op("assign", "", o, FALSE) : o \in {"Ia", "Ea", "Na", "Ng", "Cl", "Cg"}}
                  \cup {Op("poke", "", o, FALSE) : o \in {"Ia", "Ea", "Ng", "Cl", "Cg"}}
                  \cup {Op("scribble", "", "", FALSE), Op("spoil", "", "", FALSE)} :
                hist' = Append(hist, op) /\ UNCHANGED st

Init == hist = <<>> /\ st = [f \in Finders |-> Absent]
Next == Len(hist) < Depth /\ (Create \/ Replace \/ ReplaceCons \/ Reinit \/ Run \/ Reject \/ Meddle)
Spec == Init /\ [][Next]_vars

(* long histories for TLC's simulation mode: a run, then two operations, and so on *)
Turn == Len(hist) % 3
WalkNext == /\ Len(hist) < Depth
            /\ IF \E f \in Finders : ~Exists(f) THEN Create
               ELSE IF Turn = 0 THEN Run
               ELSE \/ Replace \/ ReplaceCons \/ Reinit \/ (Turn = 1 /\ Run) \/ (Turn = 2 /\ Reject) \/ Meddle
WalkSpec == Init /\ [][WalkNext]_vars

(* ---- what counts as covered -------------------------------------------------- *)
Last(k) == IF Len(hist) >= k THEN hist[Len(hist) + 1 - k] ELSE <<>>
Kind(op) == IF op = <<>> THEN op ELSE <<op.k, op.f, op.a, op.keep>>
Ran == \E k \in 1..Len(hist) : hist[k].k = "run"
Constrained == \E f \in Finders : st[f].c # ""
PairView  == <<Kind(Last(1)), Kind(Last(2)), Ran, Len(hist) > 3, Constrained>>
StateView == <<st, Kind(Last(1)), Ran>>
Rejected(op) == op.k \in {"newbad", "setk"} \/ (op.k \in {"set", "setc", "reinit"} /\ \E b \in {"Ix", "Ex", "Ey", "Nx", "Cx", "Cl,Cx", "Cx,Cg", "omegasx", "phisx"} : op.a = b)
RejView == <<st, IF hist # <<>> /\ Rejected(Last(1)) THEN Kind(Last(1)) ELSE <<>>, Ran>>

(* every history that ends in a new situation, after at least one run, is emitted *)
Emit == (Ran /\ Len(hist) >= 3) => PrintT("@H " \o ToJson(hist))
EmitRej == (Ran /\ Rejected(Last(1))) => PrintT("@H " \o ToJson(hist))
EmitMeddle == (Ran /\ \E k \in 1..Len(hist) : hist[k].k \in {"assign", "poke", "scribble", "spoil"}) => PrintT("@H " \o ToJson(hist))
EmitEnd == Len(hist) = Depth => PrintT("@H " \o ToJson(hist))
(* sanity of the abstraction: budget and multipliers are touched only as documented *)
TypeOK == \A f \in Finders : Exists(f) => st[f].fld \in {"random", "omegas", "phis", "run"} /\ (st[f].c = "" => st[f].mul = "zero")
=============================================================================
