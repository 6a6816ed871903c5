----------------------------- MODULE ClassSpec -----------------------------
(* Classes of Boolean functions under negation of arguments (families), their *)
(* permutation (factions) and both (clans), and the symmetries of a function. *)
EXTENDS BoolfSpec

\* all arrangements of a set of numbers in reverse colexicographic order
RECURSIVE Arrangements(_)
Arrangements(S) ==
  IF S = {} THEN <<<<>>>>
  ELSE LET xs == Rev(Asc(S)) IN
       Flat([i \in 1 .. Len(xs) |-> LET ps == Arrangements(S \ {xs[i]}) IN [j \in 1 .. Len(ps) |-> Append(ps[j], xs[i])]])
Perms(n) == Arrangements(Below(n))
\* the subsets of Below(n) with v elements, as ascending sequences in lexicographic order
RECURSIVE ChoicesFrom(_, _, _)
ChoicesFrom(lo, n, v) ==
  IF v = 0 THEN <<<<>>>>
  ELSE IF lo >= n THEN <<>>
  ELSE LET with == ChoicesFrom(lo + 1, n, v - 1)
       IN  [j \in 1 .. Len(with) |-> <<lo>> \o with[j]] \o ChoicesFrom(lo + 1, n, v)
Choices(n, v) == ChoicesFrom(0, n, v)

Negate(x, neg) == IF neg THEN -x - 1 ELSE x
\* the arrangement p with the values in the set m negated
Signs(m, p) == [i \in 1 .. Len(p) |-> Negate(p[i], Bit(m, p[i]) = 1)]
\* entry i of the list moves to place AbsLit(s[i]), negated where s[i] is negative
Rearrange(s, list) ==
  [j \in 1 .. Len(list) |->
     LET i == CHOOSE i \in 1 .. Len(s) : AbsLit(s[i]) = j - 1 IN Negate(list[i], s[i] < 0)]

(* --- the functions in a class, by number ------------------------------------ *)

FamilyMember(f, i) == Substitute(f, [j \in 1 .. Len(f.at) |-> Negate(f.at[j], Bit(i, j - 1) = 1)])
FamilyElements(f) == {<<i>> : i \in Below(P2(Len(f.at)))}
\* n arguments; short: permutations of all n arguments, otherwise permutation of the arguments of f and a choice
ShortFactionElements(n) == {<<i>> : i \in Below(Len(Perms(n)))}
LongFactionElements(f, n) == Below(Len(Perms(Len(f.at)))) \X Below(Len(Choices(n, Len(f.at))))
ShortClanElements(n) == Below(P2(n)) \X Below(Len(Perms(n)))
LongClanElements(f, n) == Below(P2(Len(f.at))) \X Below(Len(Perms(Len(f.at)))) \X Below(Len(Choices(n, Len(f.at))))

IsShort(f, n, full) == full \/ n = Len(f.at)

FactionMap(f, n, full) ==
  IF IsShort(f, n, full)
  THEN LET ps == Perms(n) IN TLCEval([e \in ShortFactionElements(n) |-> ActOn(f, ps[e[1] + 1])])
  ELSE LET ps == Perms(Len(f.at))
           cs == Choices(n, Len(f.at))
       IN  TLCEval([e \in LongFactionElements(f, n) |-> Substitute(f, Rearrange(ps[e[1] + 1], cs[e[2] + 1]))])
ClanMap(f, n, full) ==
  IF IsShort(f, n, full)
  THEN LET ps == Perms(n) IN TLCEval([e \in ShortClanElements(n) |-> ActOn(f, Signs(e[1], ps[e[2] + 1]))])
  ELSE LET ps == Perms(Len(f.at))
           cs == Choices(n, Len(f.at))
       IN  TLCEval([e \in LongClanElements(f, n) |-> Substitute(f, Rearrange(Signs(e[1], ps[e[2] + 1]), cs[e[3] + 1]))])
FamilyMap(f) == TLCEval([e \in FamilyElements(f) |-> FamilyMember(f, e[1])])
\* elements with equal function form a block that is labelled with it
LabelledBlocks(map) == {<<{e \in DOMAIN map : map[e] = g}, g>> : g \in {map[e] : e \in DOMAIN map}}

(* --- the classes as sets ------------------------------------------------------ *)

InjectionsInto(v, n) == {p \in [1 .. v -> Below(n)] : IsInjectiveSeq(p)}
Family(f) == {FamilyMember(f, i) : i \in Below(P2(Len(f.at)))}
Faction(f, n) == {Substitute(f, p) : p \in InjectionsInto(Len(f.at), n)}
Clan(f, n) == UNION {Faction(g, n) : g \in Family(f)}

Smallest(S) == CHOOSE x \in S : \A y \in S : x = y \/ BitsLess(x, y)
Zhes(S) == {ZheIndex(f) : f \in S}
MinOfClass(S) == OfZhe(Smallest(Zhes(S)))
\* ascending list of numbers given by their bits
RECURSIVE AscBits(_)
AscBits(S) == IF S = {} THEN <<>> ELSE LET x == Smallest(S) IN <<x>> \o AscBits(S \ {x})
IsAscBits(s) == \A i \in 1 .. (Len(s) - 1) : BitsLess(s[i], s[i + 1])

\* in the family of a function with an odd number of true places: the one with true places that add up to nothing
Fulfils(t) == LET n == Log2(Len(t)) IN \A i \in Below(n) : ~Odd(Cardinality({k \in Ones(t) : Bit(k, i) = 1}))
MaleRep(f) == CHOOSE g \in Family(f) : Fulfils(g.tt)

RECURSIVE LcmOfSet(_)
LcmOfSet(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN Lcm(x, LcmOfSet(S \ {x}))

(* --- symmetries ------------------------------------------------------------------ *)

SignedArrangements(n) == LET ps == Perms(n) IN {Signs(m, ps[i]) : m \in Below(P2(n)), i \in 1 .. Len(ps)}
\* the place to which a signed arrangement moves the place k
PlaceTo(s, k) == Num([j \in 1 .. Len(s) |-> FlipIf(Bit(k, AbsLit(s[j])), s[j])])
Keeps(s, t) == \A k \in 1 .. Len(t) : t[k] = t[1 + PlaceTo(s, k - 1)]
OrbitsOf(S, group) == Components(S, {<<k, PlaceTo(s, k)>> : s \in group, k \in S})
PermSymmetries(t) == LET ps == Perms(Log2(Len(t))) IN {ps[i] : i \in {j \in 1 .. Len(ps) : Keeps(ps[j], t)}}
SignedSymmetries(t) == {s \in SignedArrangements(Log2(Len(t))) : Keeps(s, t)}
IsSymmetricTT(t) ==
  \A k \in Below(Len(t)) : t[k + 1] = t[P2(Weigh(k))]   (* the first place with as many true arguments *)
=============================================================================
