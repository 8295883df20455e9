------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The user's parameter objects: what constructors, setters and factory    *)
(* methods store, and the immutable snapshot a finder takes of an object   *)
(* when it is built or reconfigured.                                       *)
(*                                                                         *)
(* A numeric argument is [s |-> shape, d |-> entries in row-major order];  *)
(* a scalar has shape <<>>.  An object is a record whose field t is        *)
(*   "fh"    n, chi           FloryHugginsInteraction                      *)
(*   "block" nf, per, chif    FloryHugginsBlockInteraction                 *)
(*   "ig"    n, size          IdealGasEntropy                              *)
(*   "pd"    nf, per, size    IdealGasPolydispersedEntropy                 *)
(*   "can"   n, phi           CanonicalEnsemble                            *)
(*   "gc"    n, act           GrandCanonicalEnsemble                       *)
(*   "loc", "glo"  nf, Cs, Ts linear constraints                           *)
(***************************************************************************)
EXTENDS Vec

(* ---- broadcasting ------------------------------------------------------- *)
Fits(arg, shape) ==
  /\ Len(arg.s) <= Len(shape)
  /\ \A k \in 0..(Len(arg.s) - 1) : arg.s[Len(arg.s) - k] \in {1, shape[Len(shape) - k]}
Prod(s) == IF Len(s) = 0 THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] * s[2]
BVec(arg, n) == [i \in 1..n |-> R(arg.d[IF Prod(arg.s) = 1 THEN 1 ELSE i])]
BMat(arg, n, m) ==
  LET r == IF Len(arg.s) = 2 THEN arg.s[1] ELSE 1
      c == IF Len(arg.s) = 0 THEN 1 ELSE arg.s[Len(arg.s)]
  IN TLCEval([i \in 1..n |-> [j \in 1..m |-> R(arg.d[(IF r = 1 THEN 0 ELSE i - 1) * c + (IF c = 1 THEN 1 ELSE j)])]])
Sym(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> RMul(Half, RAdd(A[i][j], A[j][i]))]])
Ones(n) == V1(n)
Scalar(x) == [s |-> <<>>, d |-> <<x>>]
SumI(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE F[k - 1] + s[k] IN F[Len(s)]
\* feature of each component, components of a feature being adjacent
FeatOf(per) == LET F[r \in 0..Len(per)] == IF r = 0 THEN <<>> ELSE F[r - 1] \o [k \in 1..per[r] |-> r] IN F[Len(per)]
BPer(arg, nf) == [r \in 1..nf |-> IF Len(arg) = 1 THEN arg[1] ELSE arg[r]]
UniformMat(n, x, vanish) == [i \in 1..n |-> [j \in 1..n |-> IF i = j /\ vanish THEN R(0) ELSE R(x)]]

(* ---- accepted arguments and stored values -------------------------------- *)
FhOK(n, arg)  == Fits(arg, <<n, n>>)
Fh(n, arg)    == [t |-> "fh", n |-> n, chi |-> Sym(BMat(arg, n, n))]
BlockOK(nf, arg, per) == Fits(arg, <<nf, nf>>) /\ Len(per) \in {1, nf}
Block(nf, arg, per)   == [t |-> "block", nf |-> nf, per |-> BPer(per, nf), chif |-> Sym(BMat(arg, nf, nf))]
IgOK(n, arg)  == Fits(arg, <<n>>)
Ig(n, arg)    == [t |-> "ig", n |-> n, size |-> BVec(arg, n)]
PdOK(nf, arg, per) == Len(per) \in {1, nf} /\ Fits(arg, <<SumI(BPer(per, nf))>>)
Pd(nf, arg, per)   == LET pr == BPer(per, nf) IN [t |-> "pd", nf |-> nf, per |-> pr, size |-> BVec(arg, SumI(pr))]
CanOK(n, arg) == Fits(arg, <<n>>)
Can(n, arg)   == [t |-> "can", n |-> n, phi |-> BVec(arg, n)]
Equimolar(n)  == Scalar(RDiv(R(1), R(n)))
GcOK(n, arg)  == Fits(arg, <<n>>)
Gc(n, arg)    == [t |-> "gc", n |-> n, act |-> BVec(arg, n)]
GcFromMu(n, mu, size) == [t |-> "gc", n |-> n,
   act |-> TLCEval([i \in 1..n |-> LET l == BVec(size, n)[i] IN RMul(l, RExp(RMul(l, BVec(mu, n)[i])))])]
NCons(Cs)     == IF Len(Cs.s) = 2 THEN Cs.s[1] ELSE 1
ConOK(nf, Cs, Ts) == Len(Cs.s) <= 2 /\ Fits(Cs, <<NCons(Cs), nf>>) /\ Fits(Ts, <<NCons(Cs)>>)
Con(t, nf, Cs, Ts) == [t |-> t, nf |-> nf, Cs |-> BMat(Cs, NCons(Cs), nf), Ts |-> BVec(Ts, NCons(Cs))]

(* Assignment of one attribute: [ok, o]; an argument that does not fit changes nothing. *)
SetOK(o, a, arg) ==
  CASE a = "chis"      -> Fits(arg, <<o.n, o.n>>)
    [] a = "chis_feat" -> Fits(arg, <<o.nf, o.nf>>)
    [] a = "sizes"     -> Fits(arg, <<Len(o.size)>>)
    [] a = "phi_means" -> Fits(arg, <<o.n>>)
    [] a = "scaled_activity" -> Fits(arg, <<o.n>>)
    [] a = "Cs"        -> Fits(arg, <<Len(o.Ts), o.nf>>)
    [] a = "Ts"        -> Fits(arg, <<Len(o.Ts)>>)
SetTo(o, a, arg) ==
  CASE a = "chis"      -> [o EXCEPT !.chi = Sym(BMat(arg, o.n, o.n))]
    [] a = "chis_feat" -> [o EXCEPT !.chif = Sym(BMat(arg, o.nf, o.nf))]
    [] a = "sizes"     -> [o EXCEPT !.size = BVec(arg, Len(o.size))]
    [] a = "phi_means" -> [o EXCEPT !.phi = BVec(arg, o.n)]
    [] a = "scaled_activity" -> [o EXCEPT !.act = BVec(arg, o.n)]
    [] a = "Cs"        -> [o EXCEPT !.Cs = BMat(arg, Len(o.Ts), o.nf)]
    [] a = "Ts"        -> [o EXCEPT !.Ts = BVec(arg, Len(o.Ts))]
\* in-place change of one entry of an array the object hands out
PokeTo(o, a, i, j, x) ==
  CASE a = "chis"      -> [o EXCEPT !.chi[i][j] = R(x)]
    [] a = "chis_feat" -> [o EXCEPT !.chif[i][j] = R(x)]
    [] a = "sizes"     -> [o EXCEPT !.size[i] = R(x)]
    [] a = "scaled_activity" -> [o EXCEPT !.act[i] = R(x)]
    [] a = "Cs"        -> [o EXCEPT !.Cs[i][j] = R(x)]
    [] a = "Ts"        -> [o EXCEPT !.Ts[i] = R(x)]

(* ---- what the object shows ------------------------------------------------ *)
ChiOf(o) == IF o.t = "fh" THEN o.chi
            ELSE LET f == FeatOf(o.per) IN TLCEval([i \in 1..Len(f) |-> [j \in 1..Len(f) |-> o.chif[f[i]][f[j]]]])
NComp(o) == IF o.t \in {"fh", "ig", "can", "gc"} THEN o.n ELSE SumI(o.per)
UpperTriangle(A) == LET n == Len(A) F[i \in 0..n] == IF i = 0 THEN <<>> ELSE F[i - 1] \o SubSeq(A[i], i, n) IN F[n]

(* ---- samples of normally distributed numbers ------------------------------- *)
Mean(v) == RDiv(RSum(v), R(Len(v)))
Var(v)  == LET m == Mean(v) IN RDiv(RSum([i \in 1..Len(v) |-> RMul(RSub(v[i], m), RSub(v[i], m))]), R(Len(v)))
OffDiag(Mx) == LET n == Len(Mx) F[i \in 0..n] == IF i = 0 THEN <<>> ELSE F[i - 1] \o SubSeq(Mx[i], i + 1, n) IN F[n]
DrawnEntries(Mx, vanish) == IF vanish THEN OffDiag(Mx) ELSE UpperTriangle(Mx)
\* six standard deviations of the estimators
SampleOK(v, mean, std) == LET n == Len(v) s2 == RMul(std, std) IN
  /\ RLe(RMul(RMul(RSub(Mean(v), mean), RSub(Mean(v), mean)), R(n)), RMul(R(40), s2))
  /\ LET d == RSub(Var(v), s2) IN RLe(RMul(RMul(d, d), R(n)), RMul(R(80), RMul(s2, s2)))

(* ---- the snapshot taken by a finder ---------------------------------------- *)
Opt(kw, k, default) == IF k \in DOMAIN kw /\ kw[k] # "" THEN R(kw[k]) ELSE default
InterPart(o, kw) ==
  IF o.t = "fh" THEN [nf |-> o.n, chi |-> o.chi, shift |-> Opt(kw, "shift", R(1))]
                ELSE [nf |-> o.nf, chi |-> o.chif, shift |-> Opt(kw, "shift", R(1))]
EntrPart(o) == IF o.t = "ig" THEN [nc |-> o.n, nf |-> o.n, size |-> o.size, feat |-> [i \in 1..o.n |-> i]]
               ELSE [nc |-> SumI(o.per), nf |-> o.nf, size |-> o.size, feat |-> FeatOf(o.per)]
EnsPart(o) == IF o.t = "can" THEN [nc |-> o.n, ens |-> [kind |-> "can", phi |-> o.phi]]
              ELSE [nc |-> o.n, ens |-> [kind |-> "gc", act |-> o.act]]
ConPart(o, kw) == [nf |-> o.nf, con |-> [kind |-> o.t, Cs |-> o.Cs, Ts |-> o.Ts,
                     ratio |-> Opt(kw, "ratio", R(1)), kap |-> Opt(kw, "kappa", R(1))]]
=============================================================================
