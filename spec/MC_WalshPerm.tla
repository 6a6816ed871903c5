---------------------------- MODULE MC_WalshPerm ----------------------------
(* Laws of the specified Walsh permutations of degree at most MaxDeg.        *)
EXTENDS WalshPermSpec
CONSTANT MaxDeg
VARIABLES v, w

Walshes == {WTrim(x) : x \in UNION {Vectors(n) : n \in 0 .. MaxDeg}}
Init == v \in Walshes /\ w = <<>>
Next == w = <<>> /\ w' \in Walshes /\ UNCHANGED v

AsPermutations == WPerm(WMul(v, w)) = Mul(WPerm(v), WPerm(w))
Inverses == /\ WMul(v, WInv(v)) = <<>> /\ WMul(WInv(v), v) = <<>>
            /\ WTrim(WInv(v)) = WInv(v) /\ WPerm(WInv(v)) = Inv(WPerm(v))
Transposes == /\ WTranspose(WTranspose(v)) = v /\ WTrim(WTranspose(v)) = WTranspose(v)
              /\ WTranspose(WMul(v, w)) = WMul(WTranspose(w), WTranspose(v))
              /\ WTranspose(WInv(v)) = WInv(WTranspose(v))
Powers == w = <<>> => \A k \in -3 .. 5 : WPow(v, k + 1) = WMul(v, WPow(v, k))
Faithful == (WPerm(v) = WPerm(w)) <=> (v = w)
MinimalPeriod == v # <<>> => WPerm(v).per = P2(Len(v))
OddDeterminant == w = <<>> => Odd(Det(WMatrix(v)))
Places == w = <<>> => \A n \in Len(v) .. (MaxDeg + 1) :
            FullPlace(v, n) = P2(n) - 1 - (P2(Len(v)) - 1 - FullPlace(v, Len(v)))
RoundTrips == w = <<>> => Columns(WMatrix(v)) = v /\ LinearSeq(WSeq(v, Len(v))) /\ SeqColumns(WSeq(v, Len(v))) = v
=============================================================================
