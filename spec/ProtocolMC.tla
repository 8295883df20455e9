----------------------------- MODULE ProtocolMC -----------------------------
(* Every sequence of calls that Protocol allows keeps the guarantees a part  *)
(* relies on, and every iteration can be completed.                          *)
EXTENDS Protocol, TLC
CONSTANTS Cons, Longest
VARIABLES p, h
Calls == {[m |-> m, c |-> ""] : m \in {"partition", "normalize", "feat", "pot", "coef", "ivd", "evd"}}
         \cup {[m |-> m, c |-> c] : m \in {"prepare", "cpot", "cvd", "evolve"}, c \in Cons}
Init == p = P0 /\ h = <<>>
Next == /\ Len(h) < Longest
        /\ \E k \in Calls : Allowed(p, k, Cons) /\ p' = After(p, k) /\ h' = Append(h, k)
Spec == Init /\ [][Next]_<<p, h>>
Pos(call) == {k \in 1..Len(h) : h[k] = call}
Once(call) == Cardinality(Pos(call)) <= 1
Before(a, b) == \A k \in Pos(b) : \E j \in Pos(a) : j < k
Call(m, c) == [m |-> m, c |-> c]
OnceEach == Once(Call("partition", "")) /\ Once(Call("normalize", "")) /\ Once(Call("feat", "")) /\ \A c \in Cons : Once(Call("prepare", c)) /\ Once(Call("evolve", c))
PreparedBeforeUse == \A c \in Cons : \A m \in {"cpot", "cvd", "evolve"} : Before(Call("prepare", c), Call(m, c))
FractionsFirst == \A c \in Cons : Before(Call("feat", ""), Call("prepare", c))
NotUsedAfterEvolve == \A c \in Cons : \A m \in {"cpot", "cvd", "prepare"} : \A j \in Pos(Call("evolve", c)) : \A k \in Pos(Call(m, c)) : k < j
Agrees == Done(p, Cons) <=> Conforms(h, Cons)
=============================================================================
