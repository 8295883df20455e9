-------------------------------- MODULE Vec --------------------------------
(* Vectors (sequences of Num) and matrices (sequences of rows).             *)
EXTENDS Num, Naturals, Sequences, FiniteSets, TLC

V0(n)        == [i \in 1..n |-> R(0)]
V1(n)        == [i \in 1..n |-> R(1)]
VAdd(a, b)   == TLCEval([i \in 1..Len(a) |-> RAdd(a[i], b[i])])
VSub(a, b)   == TLCEval([i \in 1..Len(a) |-> RSub(a[i], b[i])])
VMul(a, b)   == TLCEval([i \in 1..Len(a) |-> RMul(a[i], b[i])])
VScale(c, a) == TLCEval([i \in 1..Len(a) |-> RMul(c, a[i])])
Col(A, m)    == TLCEval([i \in 1..Len(A) |-> A[i][m]])
Transp(A)    == TLCEval([m \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][m]]])
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> RDot(A[i], v)])
MatMul(A, B) == LET BT == Transp(B) IN TLCEval([i \in 1..Len(A) |-> [m \in 1..Len(BT) |-> RDot(A[i], BT[m])]])
MaxAbsM(A)   == RMaxAbs([i \in 1..Len(A) |-> RMaxAbs(A[i])])
FinV(v)      == \A i \in 1..Len(v) : RFin(v[i])
FinM(A)      == \A i \in 1..Len(A) : FinV(A[i])
IsVec(v, n)      == Len(v) = n
IsMat(A, n, m)   == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = m
Half         == R("1/2")
RMin1(a)     == RMin(a, R(1))

(* Agreement with a double precision result: |a - b| <= eps * (1 + s), s a  *)
(* magnitude that occurred in the computation.                              *)
Eps          == R("1/1000000000")                  \* 1e-9
Near(a, b, s)   == RFin(a) /\ RFin(b) /\ RLe(RAbs(RSub(a, b)), RMul(Eps, RAdd(R(1), RAbs(s))))
\* purely relative agreement
NearRel(a, b)   == RFin(a) /\ RFin(b) /\ RLe(RAbs(RSub(a, b)), RAdd(RMul(Eps, RAbs(b)), R("1e-290")))
Within(a, b, e) == RFin(a) /\ RFin(b) /\ RLe(RAbs(RSub(a, b)), e)
NearV(a, b, s)  == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], s)
NearM(A, B, s)  == Len(A) = Len(B) /\ \A i \in 1..Len(A) : NearV(A[i], B[i], s)
EqV(a, b)       == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
EqM(A, B)       == Len(A) = Len(B) /\ \A i \in 1..Len(A) : EqV(A[i], B[i])
Range1(s)       == {s[i] : i \in 1..Len(s)}
=============================================================================
