------------------------------ MODULE ReproGen ------------------------------
(***************************************************************************)
(* Reproducibility (C12) as a property of pairs of executions: the same    *)
(* sequence of operations on a world x alone and on a world y in which     *)
(* other users of randomness are active.  What a random operation yields   *)
(* is a function of the position of the supplied generator, and only the   *)
(* operations that were handed this generator move it; so the two worlds   *)
(* see the same values.  The sequences are emitted for replay.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, Leaky          \* Leaky: a (wrong) design in which revivals use the global generator
VARIABLES hist, x, y
vars == <<hist, x, y>>
\* a world: position of the supplied generator, of the global one, and the values seen so far
W0 == [gen |-> 0, glob |-> 0, seen |-> <<>>, made |-> FALSE]
Draw(w, k) == [w EXCEPT !.gen = @ + k, !.seen = Append(@, <<"gen", w.gen, k>>)]
LeakDraw(w, k) == IF Leaky THEN [w EXCEPT !.glob = @ + k, !.seen = Append(@, <<"glob", w.glob, k>>)] ELSE Draw(w, k)
Mine == {"new", "run", "runx", "random", "phis", "setc", "chis", "factory", "fefactory", "composition", "shortcut"}
Noise == {"draw", "seed", "otherrun", "othernew", "clock"}
Effect(w, op) ==
  CASE op = "new" -> [Draw(w, 4) EXCEPT !.made = TRUE]
    [] op = "run" -> LeakDraw(w, 2)
    [] op = "runx" -> LeakDraw(w, 3)
    [] op = "random" -> Draw(w, 4)
    [] op \in {"phis", "setc"} -> w
    [] op \in {"chis", "factory", "fefactory", "composition"} -> Draw(w, 1)
    [] op = "shortcut" -> LeakDraw(Draw(w, 4), 1)
    [] op \in {"draw", "seed", "otherrun", "othernew"} -> [w EXCEPT !.glob = @ + 1]
    [] op = "clock" -> w
NeedsFinder == {"run", "runx", "random", "phis", "setc"}
Init == hist = <<>> /\ x = W0 /\ y = W0
DoMine == \E op \in Mine : (op \in NeedsFinder => x.made) /\ hist' = Append(hist, op) /\ x' = Effect(x, op) /\ y' = Effect(y, op)
DoNoise == \E op \in Noise : hist # <<>> /\ hist' = Append(hist, op) /\ y' = Effect(y, op) /\ UNCHANGED x
Next == Len(hist) < Depth /\ (DoMine \/ DoNoise)
Spec == Init /\ [][Next]_vars
SameView == x.seen = y.seen
Last(k) == IF Len(hist) >= k THEN hist[Len(hist) + 1 - k] ELSE ""
View == <<Last(1), Last(2), Last(3), Len(hist) > 3>>
Emit == (Len(hist) > 1 /\ Last(1) \in Mine) => PrintT("@H " \o ToJson(hist))
=============================================================================
