------------------------------ MODULE MC_Binv ------------------------------
(* Laws of the bit sequences used by all other modules: Boolean algebra,     *)
(* order, and the arithmetic on numbers given by their bits.                 *)
EXTENDS BinvSpec
CONSTANT N
VARIABLES a, b

Small == UNION {BitSeqs(n) : n \in 0 .. N}
Init == a \in Small /\ b = <<>>
Next == b = <<>> /\ b' \in Small \ {<<>>} /\ UNCHANGED a

SameLength == Len(a) = Len(b)
BooleanAlgebra ==
  /\ Not(Not(a)) = a
  /\ SameLength =>
       /\ Not(And(a, b)) = Or(Not(a), Not(b))
       /\ Xor(a, b) = Or(And(a, Not(b)), And(Not(a), b))
       /\ Xor(Xor(a, b), b) = a
       /\ Weight(Or(a, b)) + Weight(And(a, b)) = Weight(a) + Weight(b)
       /\ (And(a, b) = a) = (Ones(a) \subseteq Ones(b))
Orders ==
  /\ LexLess(a, b) \/ LexLess(b, a) \/ a = b
  /\ ~(LexLess(a, b) /\ LexLess(b, a))
  /\ BitsLess(a, b) = (Num(a) < Num(b))
  /\ \A c \in BitSeqs(2) : LexLess(a, b) /\ LexLess(b, c) => LexLess(a, c)
Numbers ==
  /\ BitsN(Num(a), Len(a)) = a
  /\ BitsOf(Num(a)) = Canon(a)
  /\ BitsOfSet(Ones(a), Len(a)) = a
  /\ Num(AddBits(a, b)) = Num(a) + Num(b)
  /\ Num(MulBits(a, b)) = Num(a) * Num(b)
  /\ Weigh(Num(a)) = Weight(a)
=============================================================================
