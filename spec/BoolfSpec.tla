----------------------------- MODULE BoolfSpec -----------------------------
(* A Boolean function is written [at |-> its arguments in ascending order,    *)
(* tt |-> its truth table, first argument changing fastest].  It is reduced:  *)
(* it depends on every argument, so this form is unique.                      *)
EXTENDS Common

Upto(n) == [i \in 1 .. n |-> i - 1]
IsPow2(n) == \E i \in 0 .. 30 : P2(i) = n
Log2(n) == CHOOSE i \in 0 .. 30 : P2(i) = n

\* the number whose digit j - 1 is digit p[j] of k, and the other way round
RECURSIVE GatherJ(_, _, _)
GatherJ(k, p, j) == IF j = 0 THEN 0 ELSE GatherJ(k, p, j - 1) + Bit(k, p[j]) * P2(j - 1)
Gather(k, p) == GatherJ(k, p, Len(p))
RECURSIVE ScatterJ(_, _, _)
ScatterJ(k, p, j) == IF j = 0 THEN 0 ELSE ScatterJ(k, p, j - 1) + Bit(k, j - 1) * P2(p[j])
Scatter(k, p) == ScatterJ(k, p, Len(p))

PlaceIn(at, x) == (CHOOSE i \in DOMAIN at : at[i] = x) - 1

(* --- the function denoted by a table over arguments in any order ---------- *)

Depends(bits, n, i) == \E k \in Below(P2(n)) : Bit(k, i) = 0 /\ bits[k + 1] # bits[k + P2(i) + 1]

Reduce(bits, at) ==
  LET n == Len(at)
      as == Asc({at[i] : i \in {j \in 1 .. n : Depends(bits, n, j - 1)}})
      p == [j \in 1 .. Len(as) |-> PlaceIn(at, as[j])]
  IN  [at |-> as, tt |-> [k \in 1 .. P2(Len(as)) |-> bits[1 + Scatter(k - 1, p)]]]

\* Arguments listed in another order: digit r of the places of the table belongs to the m-th smallest
\* argument, where r is the rank of the argument listed as the m-th.  (This is the documented reading:
\* the permutation that sorts the arguments is applied to the digits.)
Listed(bits, at) ==
  LET as == Asc(Ran(at))
      rank == [m \in 1 .. Len(at) |-> PlaceIn(as, at[m])]
  IN  Reduce([k \in 1 .. Len(bits) |-> bits[1 + Scatter(k - 1, rank)]], as)

Const(b) == [at |-> <<>>, tt |-> <<b>>]
Literal(x) == IF x < 0 THEN [at |-> <<-x - 1>>, tt |-> <<1, 0>>] ELSE [at |-> <<x>>, tt |-> <<0, 1>>]

\* the value when exactly the arguments in T are true
Value(f, T) == f.tt[1 + Gather(Num([i \in 1 .. Len(f.at) |-> IF f.at[i] \in T THEN 1 ELSE 0]), Upto(Len(f.at)))]

\* the truth table over a list of arguments that contains those of f
Table(f, at) ==
  LET p == [j \in 1 .. Len(f.at) |-> PlaceIn(at, f.at[j])]
  IN  [k \in 1 .. P2(Len(at)) |-> f.tt[1 + Gather(k - 1, p)]]
Adicity(f) == IF f.at = <<>> THEN 0 ELSE f.at[Len(f.at)] + 1
TT(f, n) == Table(f, Upto(n))
Own(f) == TT(f, Adicity(f))
OfTable(bits) == Reduce(bits, Upto(Log2(Len(bits))))
Root(f) == [at |-> Upto(Len(f.at)), tt |-> f.tt]
Spots(f) == Ones(f.tt)

(* --- Boolean algebra -------------------------------------------------------- *)

Both(f, g) == Asc(Ran(f.at) \cup Ran(g.at))
Conj(f, g) == LET at == Both(f, g) IN Reduce(And(Table(f, at), Table(g, at)), at)
Disj(f, g) == LET at == Both(f, g) IN Reduce(Or(Table(f, at), Table(g, at)), at)
Plus(f, g) == LET at == Both(f, g) IN Reduce(Xor(Table(f, at), Table(g, at)), at)
Neg(f) == [f EXCEPT !.tt = Not(f.tt)]
Implies(f, g) == LET at == Both(f, g) IN Ones(Table(f, at)) \subseteq Ones(Table(g, at))

RECURSIVE ConjAll(_)
ConjAll(fs) == IF fs = <<>> THEN Const(1) ELSE Conj(Head(fs), ConjAll(Tail(fs)))
RECURSIVE DisjAll(_)
DisjAll(fs) == IF fs = <<>> THEN Const(0) ELSE Disj(Head(fs), DisjAll(Tail(fs)))
RECURSIVE PlusAll(_)
PlusAll(fs) == IF fs = <<>> THEN Const(0) ELSE Plus(Head(fs), PlusAll(Tail(fs)))

(* --- transforms of truth tables ---------------------------------------------- *)

Half(s, i) == SubSeq(s, 1 + i * (Len(s) \div 2), (i + 1) * (Len(s) \div 2))

\* algebraic normal form: entry k is the sum of the entries at the subsets of k (see MC_Boolf)
RECURSIVE Zhegalkin(_)
Zhegalkin(s) ==
  IF Len(s) = 1 THEN s
  ELSE LET a == Zhegalkin(Half(s, 0))
           b == Zhegalkin(Half(s, 1))
       IN  a \o Xor(a, b)

AddSeq(a, b) == [i \in 1 .. Len(a) |-> a[i] + b[i]]
SubtractSeq(a, b) == [i \in 1 .. Len(a) |-> a[i] - b[i]]
\* Walsh spectrum: entry k is the sum of the entries, negative where the digits shared with k are odd (see MC_Boolf)
RECURSIVE Walsh(_)
Walsh(s) ==
  IF Len(s) = 1 THEN s
  ELSE LET a == Half(s, 0)
           b == Half(s, 1)
       IN  Walsh(AddSeq(a, b)) \o Walsh(SubtractSeq(a, b))
IsSpectrum(ws) == ws # <<>> /\ IsPow2(Len(ws)) /\ LET v == Walsh(ws) IN Ran(v) \subseteq {0, Len(ws)}
OfSpectrum(ws) == LET v == Walsh(ws) IN OfTable([i \in 1 .. Len(v) |-> v[i] \div Len(ws)])

Twin(f, n) == OfTable(Zhegalkin(TT(f, n)))
ZheIndex(f) == Canon(Zhegalkin(Own(f)))
\* the smallest n with z < 2 ^ 2 ^ n, for a number given by its bits
ArityOf(z) == LET m == Need(z) IN IF m = 0 THEN 0 ELSE CHOOSE n \in 0 .. 30 : P2(n) >= m /\ (n = 0 \/ P2(n - 1) < m)
OfZhe(z) == LET n == ArityOf(z) IN OfTable(Zhegalkin(Pad(z, P2(n))))

(* --- layers ------------------------------------------------------------------- *)

KeysOfWeight(n, w) == SelectSeq(Upto(P2(n)), LAMBDA k : Weigh(k) = w)
Layered(s) ==
  LET n == Log2(Len(s))
  IN  [w \in 1 .. n + 1 |-> LET ks == KeysOfWeight(n, w - 1) IN [i \in 1 .. Len(ks) |-> s[ks[i] + 1]]]
LayeredSpots(f) ==
  LET n == Len(f.at) IN [w \in 1 .. n + 1 |-> SelectSeq(KeysOfWeight(n, w - 1), LAMBDA k : f.tt[k + 1] = 1)]
Digits(k, n) == SelectSeq(Upto(n), LAMBDA i : Bit(k, i) = 1)

(* --- substitution ---------------------------------------------------------------- *)

AbsLit(x) == IF x < 0 THEN -x - 1 ELSE x
FlipIf(bit, x) == IF x < 0 THEN 1 - bit ELSE bit
\* f with its j-th argument replaced by the literal lits[j]; the literals may coincide
Substitute(f, lits) ==
  LET at == Asc({AbsLit(lits[j]) : j \in DOMAIN lits})
      p == [j \in DOMAIN lits |-> PlaceIn(at, AbsLit(lits[j]))]
      Key(k) == Num([j \in DOMAIN lits |-> FlipIf(Bit(k, p[j]), lits[j])])
  IN  Reduce([k \in 1 .. P2(Len(at)) |-> f.tt[1 + Key(k - 1)]], at)
Distinct(lits) == Cardinality({AbsLit(lits[j]) : j \in DOMAIN lits}) = Len(lits)

\* under a signed permutation given by its first entries
LitOf(seq, x) == IF x < Len(seq) THEN seq[x + 1] ELSE x
ActOn(f, seq) == Substitute(f, [j \in 1 .. Len(f.at) |-> LitOf(seq, f.at[j])])
\* first s, then t
After(s, t) ==
  [i \in 1 .. Max2(Len(s), Len(t)) |->
     LET x == LitOf(s, i - 1)
         y == LitOf(t, AbsLit(x))
     IN  IF x < 0 THEN -y - 1 ELSE y]

(* --- denotation of arguments of the constructor ----------------------------------- *)
(* kind "table": d.bits, d.at (optional)       "number": d.n, d.arity, d.at (optional)   *)
(*      "spots": d.set, d.at or d.arity        "literal": d.lit                          *)
(*      "and" "or" "xor" "xand": d.items       "zhe": d.n        "walsh": d.ws           *)
(* Optional entries are <<>> or <<value>>.                                               *)

GoodAtoms(at, length) == IsInjectiveSeq(at) /\ Len(at) <= 30 /\ P2(Len(at)) = length /\ \A x \in Ran(at) : x >= 0
SpotsLength(d) == P2(IF d.at # <<>> THEN Len(d.at[1]) ELSE d.arity[1])

DenotesFunction(d) ==
  CASE d.kind = "table" -> /\ Ran(d.bits) \subseteq {0, 1} /\ IsPow2(Len(d.bits))
                           /\ d.at # <<>> => GoodAtoms(d.at[1], Len(d.bits))
    [] d.kind = "number" -> /\ d.arity # <<>> /\ d.arity[1] >= 0 /\ Need(d.n) <= P2(d.arity[1])
                            /\ d.at # <<>> => GoodAtoms(d.at[1], P2(d.arity[1]))
    [] d.kind = "spots" -> /\ (d.at = <<>>) # (d.arity = <<>>)
                           /\ d.at # <<>> => GoodAtoms(d.at[1], P2(Len(d.at[1])))
                           /\ \A x \in Ran(d.set) : 0 <= x /\ x < SpotsLength(d)
    [] d.kind \in {"literal", "and", "or", "xor", "xand", "zhe"} -> TRUE
    [] d.kind = "walsh" -> IsSpectrum(d.ws)
    [] d.kind = "malformed" -> FALSE

AtomsOf(d, length) == IF d.at # <<>> THEN d.at[1] ELSE Upto(Log2(length))
ItemFn(x) == IF x.lit # <<>> THEN Literal(x.lit[1]) ELSE x.fn
Items(d) == [i \in 1 .. Len(d.items) |-> ItemFn(d.items[i])]

DenotedFn(d) ==
  CASE d.kind = "table" -> Listed(d.bits, AtomsOf(d, Len(d.bits)))
    [] d.kind = "number" -> Listed(Pad(d.n, P2(d.arity[1])), AtomsOf(d, P2(d.arity[1])))
    [] d.kind = "spots" -> Listed(BitsOfSet(Ran(d.set), SpotsLength(d)), AtomsOf(d, SpotsLength(d)))
    [] d.kind = "literal" -> Literal(d.lit)
    [] d.kind = "and" -> ConjAll(Items(d))
    [] d.kind = "or" -> DisjAll(Items(d))
    [] d.kind = "xor" -> PlusAll(Items(d))
    [] d.kind = "xand" -> LET s == PlusAll(Items(d)) IN IF Odd(Len(d.items)) THEN s ELSE Neg(s)
    [] d.kind = "zhe" -> OfZhe(d.n)
    [] d.kind = "walsh" -> OfSpectrum(d.ws)
=============================================================================
