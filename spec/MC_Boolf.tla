------------------------------ MODULE MC_Boolf ------------------------------
(* Laws of Boolean functions: the reduced form is unique, the operations are   *)
(* pointwise, and the transforms are what their definitions say.               *)
EXTENDS BoolfSpec
CONSTANT N            \* arguments are 0 .. N - 1
VARIABLES f, g

All == {OfTable(t) : t \in BitSeqs(P2(N))}
Pick == [at |-> <<>>, tt |-> <<>>]
Init == f \in All /\ g = Pick
Next == g = Pick /\ g' \in All /\ UNCHANGED f
Alone == g = Pick

Assignments == SUBSET Below(N)

\* different functions have different values somewhere, and the arguments are those with influence
Unique ==
  ~Alone => (f = g) = (\A T \in Assignments : Value(f, T) = Value(g, T))
Arguments ==
  Alone => Ran(f.at) = {x \in Below(N) : \E T \in SUBSET (Below(N) \ {x}) : Value(f, T) # Value(f, T \cup {x})}
Tables ==
  Alone =>
    /\ OfTable(TT(f, N)) = f
    /\ \A T \in Assignments : TT(f, N)[1 + Num(BitsOfSet(T, N))] = Value(f, T)
    /\ Reduce(Table(f, Rev(Upto(N))), Rev(Upto(N))) = f
Pointwise ==
  ~Alone => \A T \in Assignments :
    /\ Value(Conj(f, g), T) = Min2(Value(f, T), Value(g, T))
    /\ Value(Disj(f, g), T) = Max2(Value(f, T), Value(g, T))
    /\ Value(Plus(f, g), T) = (Value(f, T) + Value(g, T)) % 2
    /\ Value(Neg(f), T) = 1 - Value(f, T)
Order ==
  ~Alone => Implies(f, g) = (Conj(f, g) = f)

SubsetOf(j, k) == \A i \in Below(N) : Bit(j, i) <= Bit(k, i)
Shared(j, k) == Cardinality({i \in Below(N) : Bit(j, i) = 1 /\ Bit(k, i) = 1})
Definitions ==
  Alone =>
    LET t == TT(f, N)
        z == Zhegalkin(t)
        w == Walsh(t)
    IN  /\ \A k \in Below(P2(N)) :
             z[k + 1] = Cardinality({j \in Ones(t) : SubsetOf(j, k)}) % 2
        /\ \A k \in Below(P2(N)) :
             w[k + 1] = Cardinality({j \in Ones(t) : ~Odd(Shared(j, k))}) - Cardinality({j \in Ones(t) : Odd(Shared(j, k))})
        /\ Zhegalkin(z) = t
        /\ IsSpectrum(w) /\ OfSpectrum(w) = f
        /\ Twin(Twin(f, N), N) = f
        /\ OfZhe(ZheIndex(f)) = f
        /\ Canon(Zhegalkin(TT(f, N + 1))) = ZheIndex(f)
        /\ ArityOf(ZheIndex(f)) = Adicity(f)
TwinAdds == ~Alone => Twin(Plus(f, g), N) = Plus(Twin(f, N), Twin(g, N))

Signed == {s \in [1 .. N -> -N .. N - 1] : Distinct(s)}
Action ==
  /\ Alone => \A s, t \in Signed : ActOn(ActOn(f, s), t) = ActOn(f, After(s, t))
Substitution ==
  Alone => \A s \in [1 .. Len(f.at) -> -N .. N - 1], T \in Assignments :
    Value(Substitute(f, s), T) = Value(f, {f.at[j] : j \in {i \in DOMAIN s : (AbsLit(s[i]) \in T) # (s[i] < 0)}})
=============================================================================
