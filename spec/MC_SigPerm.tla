----------------------------- MODULE MC_SigPerm -----------------------------
(* Laws of the specified signed permutations of at most MaxLen places.       *)
EXTENDS SigPermSpec
CONSTANT MaxLen
VARIABLES s, t

Sigs == {TrimSig(x) : x \in UNION {SigSeqs(n) : n \in 0 .. MaxLen}}
Init == s \in Sigs /\ t = <<>>
Next == t = <<>> /\ t' \in Sigs /\ UNCHANGED s

N == MaxLen
Matrices == SMatrix(SMul(s, t), N) = MatMul(SMatrix(s, N), SMatrix(t, N))
Inverses == /\ SMul(s, SInv(s)) = <<>> /\ SMul(SInv(s), s) = <<>>
            /\ SMatrix(SInv(s), N) = Transposed(SMatrix(s, N))
            /\ SInv(SMul(s, t)) = SMul(SInv(t), SInv(s))
Actions == LET v == [i \in 1 .. N + 1 |-> i * i + 1]
           IN  SOnVector(SMul(s, t), v) = SOnVector(s, SOnVector(t, v))
Numbers == \A x \in Below(P2(N + 1)) :
             SOnNumber(SMul(s, t), BitsOf(x)) = SOnNumber(s, SOnNumber(t, BitsOf(x)))
Vertices == SSchoute(SMul(s, t)) = Mul(SSchoute(s), SSchoute(t))
RoundTrips == /\ ByVal(ValNeg(s), AbsSeq(s)) = s
              /\ ByKey(KeyNeg(s), AbsSeq(s)) = s
              /\ TrimSig(MatrixSeq(SMatrix(s, N))) = s
              /\ s # <<>> => VertexSeq(SSchoute(s).seq) = s
Unsigned == (ValNeg(s) = {} /\ ValNeg(t) = {}) => SMul(s, t) = Mul(Finite(s), Finite(t)).seq
=============================================================================
