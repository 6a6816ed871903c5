----------------------------- MODULE SplitSpec -----------------------------
(* A Boolean function seen as a set of true places, divided by each of its    *)
(* arguments into inside and outside (an Euler diagram with a curve for each  *)
(* argument).  Arguments are numbered 0, 1, ... in ascending order.           *)
EXTENDS BoolfSpec

Keys(f) == Below(Len(f.at))
Side(f, i, b) == {s \in Spots(f) : Bit(s, i) = b}
\* the combinations of sides of a list of arguments that contain true places
Met(f, ks) == {Gather(s, ks) : s \in Spots(f)}

(* --- filtrates ---------------------------------------------------------------- *)

\* over the arguments with the numbers ks: is there a true place with these digits
FilterBits(f, ks) == LET m == Met(f, ks) IN [k \in 1 .. P2(Len(ks)) |-> IF k - 1 \in m THEN 1 ELSE 0]
Filtrate(f, ks) == Reduce(FilterBits(f, ks), [j \in 1 .. Len(ks) |-> f.at[ks[j] + 1]])

Crossing == <<1, 1, 1, 1>>
Universal == <<0, 1, 1, 1>>
Subset == <<1, 0, 1, 1>>
Superset == <<1, 1, 0, 1>>
Disjoint == <<1, 1, 1, 0>>
Equal == <<1, 0, 0, 1>>
Complementary == <<0, 1, 1, 0>>
KeyPairs(f) == {p \in Keys(f) \X Keys(f) : p[1] < p[2]}
Relation(f, a, b) == FilterBits(f, <<a, b>>)
CrossingWith(f, a) == {b \in Keys(f) \ {a} : Relation(f, a, b) = Crossing}

(* --- splits -------------------------------------------------------------------- *)

Overlaps(f, a, b) == Cardinality(Met(f, <<a, b>>))
OneSided(f) == {a \in Keys(f) : Side(f, a, 0) = {} \/ Side(f, a, 1) = {}}
SameSplit(f, a, b) == Relation(f, a, b) \in {Equal, Complementary} \/ (a \in OneSided(f) /\ b \in OneSided(f))
EqualKeys(f, a, b) == Side(f, a, 1) = Side(f, b, 1)
CompKeys(f, a, b) == Side(f, a, 1) = Side(f, b, 0)
SplitBlocks(f) == {{b \in Keys(f) : b = a \/ SameSplit(f, a, b)} : a \in Keys(f)}
\* when arguments of a block are complementary, those that are true at the first true place are preferred
FirstSpot(f) == MinOf(Spots(f))
HasSides(f, B) == \E a, b \in B : CompKeys(f, a, b)
Preferred(f, B) == IF HasSides(f, B) THEN {MinOf({a \in B : Bit(FirstSpot(f), a) = 1})} ELSE {}
Representative(f, B) == IF HasSides(f, B) THEN MinOf(Preferred(f, B)) ELSE MinOf(B)
Representatives(f) == {Representative(f, B) : B \in SplitBlocks(f)}
Cut(f, ks) == {{s \in Spots(f) : Gather(s, ks) = m} : m \in Met(f, ks)}

\* pairs of true places that differ in one argument
LinksAlong(f, i) == {<<s, s + P2(i)>> : s \in {x \in Side(f, i, 0) : x + P2(i) \in Spots(f)}}
SpotLinks(f) == UNION {LinksAlong(f, i) : i \in Keys(f)}

Bundles(f) == Components(Keys(f), {p \in KeyPairs(f) : Overlaps(f, p[1], p[2]) = 4})
\* within a bundle, the arguments that do not cross
GridBlocks(f, B) == Components(B, {p \in KeyPairs(f) : p[1] \in B /\ p[2] \in B /\ Overlaps(f, p[1], p[2]) = 3})

(* --- bloat and blot --------------------------------------------------------------- *)

HasBloat(f) == \E p \in KeyPairs(f) : SameSplit(f, p[1], p[2])
HasBlot(f) == OneSided(f) # {}
HasBlight(f) == HasBloat(f) \/ HasBlot(f)
\* a place fits the bloat if its digits are equal or complementary where those of all true places are
FitsBloat(f, s) ==
  \A p \in KeyPairs(f) : /\ EqualKeys(f, p[1], p[2]) => Bit(s, p[1]) = Bit(s, p[2])
                         /\ CompKeys(f, p[1], p[2]) => Bit(s, p[1]) # Bit(s, p[2])
FitsBlot(f, s) == \A a \in OneSided(f) : Bit(s, a) = Bit(FirstSpot(f), a)
OfPlaces(f, S) == Reduce([k \in 1 .. Len(f.tt) |-> IF k - 1 \in S THEN 1 ELSE 0], f.at)
BloatFn(f) == IF f.at = <<>> THEN Const(1) ELSE OfPlaces(f, {s \in Below(Len(f.tt)) : FitsBloat(f, s)})
BlotFn(f) == IF f.at = <<>> THEN Const(1) ELSE OfPlaces(f, {s \in Below(Len(f.tt)) : FitsBlot(f, s)})
BlightFn(f) == Conj(BloatFn(f), BlotFn(f))
BloatlessFn(f) == IF f.at = <<>> THEN f ELSE Filtrate(f, Asc(Representatives(f)))
BlightlessFn(f) == IF f.at = <<>> THEN f ELSE Filtrate(f, Asc(Representatives(f) \ OneSided(f)))
KeysOf(f, g) == {i \in Keys(f) : f.at[i + 1] \in Ran(g.at)}
BloatlessSpot(f, s) == Gather(s, Asc(Representatives(f)))
BlightlessSpot(f, s) == Gather(s, Asc(KeysOf(f, BlightlessFn(f))))

(* --- hypersplits --------------------------------------------------------------------- *)

Hypersplits(f) == {T \in SUBSET Keys(f) : T # {} /\ Cardinality(Met(f, Asc(T))) = P2(Cardinality(T))}
\* the side of argument b on which the border of argument a lies
BorderSide(f, a, b) == CHOOSE e \in {0, 1} : Relation(f, a, b) \in (IF e = 1 THEN {Universal, Subset} ELSE {Superset, Disjoint})
Free(f, T) == {b \in Keys(f) \ T : \A a \in T : Relation(f, a, b) = Crossing}
Determined(f, T) ==
  {<<b, 2 * BorderSide(f, CHOOSE a \in T : Relation(f, a, b) # Crossing, b) - 1>> : b \in (Keys(f) \ T) \ Free(f, T)}
Cores(f, T) ==
  LET free == Free(f, T)
      det == Determined(f, T)
  IN  {[i \in 1 .. Len(f.at) |-> IF i - 1 \in T THEN 0
                                 ELSE IF i - 1 \in free THEN c[i - 1]
                                 ELSE CHOOSE e \in {-1, 1} : <<i - 1, e>> \in det] : c \in [free -> {-1, 1}]}
Gapless(f) ==
  OfPlaces(f, {s \in Below(Len(f.tt)) : \A p \in KeyPairs(f) : Gather(s, <<p[1], p[2]>>) \in Met(f, <<p[1], p[2]>>)})
GaplessFn(f) == IF f.at = <<>> THEN Const(1) ELSE Gapless(f)

(* --- segments -------------------------------------------------------------------------- *)

\* the places of a subcube: 1 for a true argument, -1 for a false one, 0 for a free one
Within(v) == {s \in Below(P2(Len(v))) : \A i \in 1 .. Len(v) : v[i] = 0 \/ v[i] = 2 * Bit(s, i - 1) - 1}
Segments(f) == {v \in [1 .. Len(f.at) -> {-1, 0, 1}] : Within(v) \subseteq Spots(f)}
Dimension(v) == Cardinality({i \in DOMAIN v : v[i] = 0})
\* two links along the same argument that are opposite sides of a square
OppositeLinks(f, i) ==
  {<<p, q>> \in LinksAlong(f, i) \X LinksAlong(f, i) : p # q /\ \E j \in Keys(f) : q[1] = p[1] + P2(j) /\ Bit(p[1], j) = 0}
AllConnected(f) ==
  /\ Cardinality(Components(Spots(f), SpotLinks(f))) = 1
  /\ \A i \in Keys(f) : Cardinality(Components(LinksAlong(f, i), OppositeLinks(f, i))) <= 1

(* --- fissions ----------------------------------------------------------------------------- *)

\* for each combination of the digits listed in ds, the entries of the table at the places with these digits
PlacesAt(n, ds, b) == SelectSeq(Upto(P2(n)), LAMBDA k : Gather(k, ds) = b)
Fission(t, ds) ==
  LET n == Log2(Len(t))
  IN  [b \in 1 .. P2(Len(ds)) |-> LET ps == PlacesAt(n, ds, b - 1) IN [i \in 1 .. Len(ps) |-> t[ps[i] + 1]]]
\* the inverse: entries of the parts back to their places
Zip(parts, ds, n) ==
  [k \in 1 .. P2(n) |-> LET ps == PlacesAt(n, ds, Gather(k - 1, ds)) IN parts[1 + Gather(k - 1, ds)][1 + PlaceIn(ps, k - 1)]]
AbsSeq(s) == [i \in 1 .. Len(s) |-> IF s[i] < 0 THEN 0 - s[i] ELSE s[i]]
=============================================================================
