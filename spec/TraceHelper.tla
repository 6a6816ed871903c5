----------------------------- MODULE TraceHelper -----------------------------
(* Recorded calls of the helper functions, checked against HelperSpec.        *)
EXTENDS TraceBase, HelperSpec

\* only the functions that were found are recorded
Seen(a, view, ok) == IF view \in Ran(a.views) THEN Fail(ok, view) ELSE {}

(* --- numbers ------------------------------------------------------------------ *)

FailNumber(a, r) ==
  LET n == a.n
      zero == IsZero(n)
      even == Weight(n) % 2 = 0
  IN  Seen(a, "binary", r.binary = Need(n))
      \cup Seen(a, "decimal", r.decimal = DecimalDigits(n))
      \cup Seen(a, "floor", r.floor = (IF zero THEN <<>> ELSE <<FloorLog(n)>>))
      \cup Seen(a, "ceil", r.ceil = (IF zero THEN <<>> ELSE <<CeilLog(n)>>))
      \cup Seen(a, "exact", r.exact = (IF IsPowerOfTwo(n) THEN <<FloorLog(n)>> ELSE <<>>))
      \cup Seen(a, "power", r.power = IsPowerOfTwo(n))
      \cup Seen(a, "natural", r.natural)
      \cup Seen(a, "arity", r.arity = ArityOfNumber(n))
      \cup Seen(a, "length", r.length = P2(ArityOfNumber(n)))
      \cup Seen(a, "weight", r.weight = Weight(n))
      \cup Seen(a, "exposet", r.exposet = Asc(Ones(n)))
      \cup Seen(a, "of_exposet", r.of_exposet = n)
      \cup Seen(a, "of_vector", r.of_vector = n)
      \cup Seen(a, "evil", r.evil = EvilOf(n))
      \cup Seen(a, "odious", r.odious = OdiousOf(n))
      \cup Seen(a, "evil_index", r.evil_index = (IF even THEN <<HalfOf(n)>> ELSE <<>>))
      \cup Seen(a, "odious_index", r.odious_index = (IF even THEN <<>> ELSE <<HalfOf(n)>>))
      \cup Seen(a, "factoradic", IsFactoradic(r.factoradic) /\ Canon(OfFactoradic(r.factoradic)) = n)

FailNotNatural(a, r) == {v \in Ran(a.views) : ~r[v]}

FailLikeInteger(a, r) ==
  Fail(r.like = a.like, "like") \cup Fail(r.clean = (IF a.like THEN <<a.n>> ELSE <<>>), "clean")

\* pairs of a prime and its exponent, in the order of the primes
IsFactorization(fs, n) ==
  /\ \A i \in DOMAIN fs : fs[i][1] >= 2 /\ ~SomeDivisor(fs[i][1], 2) /\ fs[i][2] = Multiplicity(n, fs[i][1])
  /\ \A i \in 1 .. Len(fs) - 1 : fs[i][1] < fs[i + 1][1]
  /\ Num(ProdBits([i \in 1 .. Len(fs) |-> PowBits(fs[i][1], fs[i][2])])) = n

ExponentIn(parts, p) == SumSeq([i \in 1 .. Len(parts) |-> IF parts[i][1] = p THEN parts[i][2] ELSE 0])

FailExpectedFactors(a, r) ==
  LET expected == Asc(Ran(a.expected))
      found == {a.parts[i][1] : i \in DOMAIN a.parts}
  IN  Fail(r.exponents = (IF found \subseteq Ran(a.expected) THEN <<[i \in 1 .. Len(expected) |-> ExponentIn(a.parts, expected[i])]>> ELSE <<>>),
           "exponents")

Moduli == <<32749, 32719, 32713, 32707>>
FailDeterminant(a, r) ==
  Fail(r.residues = [i \in 1 .. 4 |-> DetMod(a.m, Moduli[i])], "residues") \cup Fail(r.kept, "kept")

Signed(x) == IF x < 0 THEN [neg |-> TRUE, abs |-> BitsOf(-1 - x)] ELSE [neg |-> FALSE, abs |-> BitsOf(x)]
FailLogic(a, r) ==
  LET other == LogicNot(a.n)
      maybe == IF a.do = 1 THEN other ELSE a.n
  IN  Seen(a, "abs", r.abs = a.n.abs)
      \cup Seen(a, "not", r.not = other)
      \cup Seen(a, "maybe", r.maybe = maybe)
      \cup Seen(a, "maybe_text", r.maybe_text = maybe)
      \cup Seen(a, "text", r.text = a.n)

FailLogicList(a, r) ==
  LET where == [i \in 1 .. Len(a.ns) |-> IF a.where[i] = 1 THEN LogicNot(a.ns[i]) ELSE a.ns[i]]
      which == [i \in 1 .. Len(a.ns) |-> IF a.ns[i].abs \in Ran(a.which) THEN LogicNot(a.ns[i]) ELSE a.ns[i]]
  IN  Seen(a, "abs", r.abs = [i \in 1 .. Len(a.ns) |-> a.ns[i].abs])
      \cup Seen(a, "text", r.text = a.ns)
      \cup Seen(a, "where", r.where = where)
      \cup Seen(a, "where_text", r.where_text = where)
      \cup Seen(a, "which", r.which = which)
      \cup Seen(a, "which_text", r.which_text = which)

Grown(x, by) == IF x < 0 THEN x - by ELSE x + by
GrowsTo(x, by) == (IF x < 0 THEN -1 - x ELSE x) + by
FailIncrease(a, r) ==
  LET ok == GrowsTo(a.a, a.b) >= 0
  IN  Fail(r.value = (IF ok THEN <<Grown(a.a, a.b)>> ELSE <<>>), "value")
      \cup Fail(r.text = (IF ok THEN <<Signed(Grown(a.a, a.b))>> ELSE <<>>), "text")
FailIncreaseList(a, r) ==
  LET s == [i \in 1 .. Len(a.a) |-> Grown(a.a[i], a.b[i])]
  IN  Fail(r.value = s, "value") \cup Fail(r.text = [i \in 1 .. Len(s) |-> Signed(s[i])], "text")

(* --- tables and enumerations ------------------------------------------------------ *)

FailAtomPattern(a, r) ==
  LET i == IF a.negate THEN -1 - a.i ELSE a.i
  IN  Seen(a, "pattern", r.pattern = Pattern(i, a.n))
      \cup Seen(a, "generated", r.generated = Pattern(i, a.n))
      \cup Seen(a, "signed", r.signed = (IF i < 0 THEN <<-1 - i, 1>> ELSE <<i, 0>>))

FailWalshMatrix(a, r) ==
  LET w == WalshTable(a.n)
  IN  Fail(r.matrix = (IF a.negate THEN [i \in 1 .. Len(w) |-> Not(w[i])] ELSE w), "matrix")

Under(kind, x, y) ==
  CASE kind = "divides" -> y % x = 0
    [] kind = "within" -> Within12(x, y)
    [] kind = "below" -> x < y
    [] kind = "far below" -> x + 2 < y
FailHasse(a, r) ==
  LET n == Len(a.nodes)
      all == TLCEval(HasseTable(n, {p \in (1 .. n) \X (1 .. n) : Under(a.kind, a.nodes[p[1]], a.nodes[p[2]])}))
  IN  Fail(r.all = all, "all") \cup Fail(r.direct = [i \in 1 .. n |-> [j \in 1 .. n |-> all[i][j] % 2]], "direct")

\* each subset once, in the order of the items, the smaller ones first
FailPowerSet(a, r) ==
  Fail(/\ Len(r.sets) = P2(Len(a.items))
       /\ Ran(r.sets) = {SelectSeq(a.items, LAMBDA x : x \in s) : s \in SUBSET Ran(a.items)}
       /\ \A i \in 1 .. Len(r.sets) - 1 : Len(r.sets[i]) <= Len(r.sets[i + 1]), "sets")

FailLayeredPlaces(a, r) ==
  LET n == Log2(Len(a.t))
      At(w, v) == Asc({k \in Below(Len(a.t)) : Weigh(k) = w /\ a.t[k + 1] = v})
  IN  Fail(r.places = [w \in 1 .. n + 1 |-> <<w - 1, At(w - 1, 0), At(w - 1, 1)>>], "places")

FailAtomSequence(a, r) ==
  Fail(r.sequence = [k \in 1 .. a.length |-> SumSeq([d \in 1 .. Len(a.es) |-> Bit(k - 1, a.es[d]) * P2(d - 1)])], "sequence")

FailRings(a, r) ==
  LET counts == RingCounts(a.n)
  IN  Fail(r.counts = (IF a.length = -1 THEN <<counts>> ELSE IF Len(counts) <= a.length THEN <<counts \o Zeros(a.length - Len(counts))>> ELSE <<>>),
           "counts")

FailSubcube(a, r) ==
  Fail(r.spots = Asc({k \in Below(P2(Len(a.v))) : \A i \in DOMAIN a.v : a.v[i] = 0 \/ Bit(k, i - 1) = (a.v[i] + 1) \div 2}), "spots")

FailSides(a, r) ==
  LET Side(i, v) == {s \in Ran(a.spots) : Bit(s, i) = v}
      inhabited == {p \in {0, 1} \X {0, 1} : Side(a.i, p[1]) \cap Side(a.j, p[2]) # {}}
  IN  Fail(r.splits = [i \in 1 .. a.n |-> <<Asc(Side(i - 1, 1)), Asc(Side(i - 1, 0))>>], "splits")
      \cup Fail(r.regions = Cardinality(inhabited), "regions")

FailPalindrome(a, r) ==
  LET half == Len(a.t) \div 2
      right == SubSeq(a.t, half + 1, Len(a.t))
  IN  Fail(r.index = (IF Len(a.t) = 1 THEN <<Canon(a.t)>> ELSE IF a.t = Rev(a.t) THEN <<Canon(right)>> ELSE <<>>), "index")

FailCosets(a, r) ==
  Fail({Ran(r.blocks[i]) : i \in DOMAIN r.blocks} = {s \in Cosets(a.index, a.n) : Cardinality(s) > 1} /\ IsInjectiveSeq(r.blocks)
       /\ \A i \in DOMAIN r.blocks : IsInjectiveSeq(r.blocks[i]), "blocks")

(* --- sorting and rearranging ---------------------------------------------------------- *)

FailSortTogether(a, r) ==
  Fail(/\ Len(r.lists) = Len(a.lists)
       /\ \A k \in DOMAIN a.lists : Len(r.lists[k]) = Len(a.lists[k])
       /\ SameContents(Across(r.lists), Across(a.lists))
       /\ LexAscending(Across(r.lists)), "lists")
  \cup Fail(r.kept, "kept")

SameShapes(ms, ns) ==
  /\ Len(ms) = Len(ns)
  /\ \A k \in DOMAIN ms : Len(ms[k]) = Len(ns[k]) /\ \A i \in DOMAIN ms[k] : Len(ms[k][i]) = Len(ns[k][i])
FailSortRows(a, r) ==
  Fail(SameShapes(r.matrices, a.matrices) /\ SameContents(Rows(r.matrices), Rows(a.matrices)) /\ LexAscending(Rows(r.matrices)), "matrices")
  \cup Fail(r.kept, "kept")
\* for columns the first or the last entry is the most significant one
FailSortColumns(a, r) ==
  LET Ready(ms) == IF a.top THEN Rows([k \in 1 .. Len(ms) |-> Mirrored(Turned(ms[k]))]) ELSE Rows([k \in 1 .. Len(ms) |-> Turned(ms[k])])
  IN  Fail(SameShapes(r.matrices, a.matrices) /\ SameContents(Ready(r.matrices), Ready(a.matrices)) /\ LexAscending(Ready(r.matrices)), "matrices")
      \cup Fail(r.kept, "kept")
FailSwapRows(a, r) ==
  Fail(r.m = [k \in 1 .. Len(a.m) |-> a.m[IF k = a.i + 1 THEN a.j + 1 ELSE IF k = a.j + 1 THEN a.i + 1 ELSE k]], "m") \cup Fail(r.kept, "kept")
FailColex(a, r) == Fail(SameContents(r.rows, a.rows) /\ ColexAscending(r.rows), "rows") \cup Fail(r.kept, "kept")
FailSortLayers(a, r) ==
  Fail(/\ Len(r.layers) = Len(a.layers)
       /\ \A i \in DOMAIN a.layers : SameContents(r.layers[i], a.layers[i]) /\ Ascending(r.layers[i]), "layers")
  \cup Fail(r.kept, "kept")

\* first the sum counts, then the sums of the layers, then the entries of the layers
FailCompareLayers(a, r) ==
  LET Sums(x) == [i \in 1 .. Len(x) |-> SumSeq(x[i])]
      Key(x) == <<SumSeq(Sums(x))>> \o Sums(x) \o Flat(x)
  IN  Fail(r.greater = LexLess(Key(a.y), Key(a.x)), "greater")

FailApart(a, r) == Fail(r.parts = Apart(a.v, a.pattern), "parts") \cup Fail(r.kept, "kept")
FailTogether(a, r) == Fail(r.v = Together(a.parts, a.pattern), "v") \cup Fail(r.kept, "kept")

FailInventory(a, r) ==
  LET vs == Asc(Ran(a.values))
      counts == [i \in 1 .. Len(vs) |-> <<vs[i], CountOf(vs[i], a.values)>>]
  IN  Fail(r.list = counts, "list") \cup Fail(r.dict = counts, "dict") \cup Fail(r.kept, "kept")

FailInventoryPartition(a, r) ==
  Fail(/\ Ran(r.labels) = {<<Asc({a.keys[i] : i \in {j \in DOMAIN a.values : a.values[j] = v}}), v>> : v \in Ran(a.values)}
       /\ Len(r.labels) = Cardinality(Ran(a.values)), "labels")

FailProductSet(a, r) ==
  LET left == {a.pairs[i][1] : i \in DOMAIN a.pairs}
      right == {a.pairs[i][2] : i \in DOMAIN a.pairs}
      ok == Ran(a.pairs) = left \X right /\ Len(a.pairs) = Cardinality(Ran(a.pairs))
  IN  Fail(r.sides = (IF ok THEN <<<<Asc(left), Asc(right)>>>> ELSE <<>>), "sides")

\* multisets are lists of pairs of an element and its number
NumberOf(x, k) == SumSeq([i \in 1 .. Len(x) |-> IF x[i][1] = k THEN x[i][2] ELSE 0])
KeysOf(x) == {x[i][1] : i \in DOMAIN x}
FailMultisubset(a, r) == Fail(r.value = (\A k \in KeysOf(a.x) : NumberOf(a.x, k) <= NumberOf(a.y, k)), "value")
FailDistribution(a, r) ==
  Fail(r.counts = (IF KeysOf(a.x) \subseteq Ran(a.values) THEN <<[i \in 1 .. Len(a.values) |-> NumberOf(a.x, a.values[i])]>> ELSE <<>>), "counts")

FailRepeat(a, r) ==
  Fail(r.s = (IF a.n % Len(a.s) = 0 THEN <<[i \in 1 .. a.n |-> a.s[((i - 1) % Len(a.s)) + 1]]>> ELSE <<>>), "s")

FailFlatten(a, r) == Fail(r.flat = Leaves(a.tree), "flat") \cup Fail(r.kept, "kept")
FailKeyTuples(a, r) == Fail(r.paths = Paths(a.tree), "paths") \cup Fail(r.kept, "kept")

\* dictionaries are lists of pairs in the order of their keys
FailSubdict(a, r) ==
  LET left == {p \in Ran(a.d) : p[1] \notin Ran(a.drop) \cup KeysOf(a.fresh)}
  IN  Fail(Ran(r.d) = left \cup Ran(a.fresh) /\ IsInjectiveSeq(r.d), "d") \cup Fail(r.kept, "kept")

FailSlice(a, r) ==
  LET stop == IF a.stop # -1 THEN a.stop ELSE a.given
  IN  Fail(r.range = (IF stop = -1 THEN <<>> ELSE <<Asc({x \in a.start .. stop - 1 : (x - a.start) % a.step = 0})>>), "range")

FailTransposition(a, r) ==
  LET ok == a.i # a.j /\ a.i < a.n /\ a.j < a.n
  IN  Fail(r.s = (IF ok THEN <<[k \in 1 .. a.n |-> IF k - 1 = a.i THEN a.j ELSE IF k - 1 = a.j THEN a.i ELSE k - 1]>> ELSE <<>>), "s")

----------------------------------------------------------------------------
FailRest(e) ==
  LET a == e.a
      r == e.r
  IN  CASE e.op = "sort together" -> FailSortTogether(a, r)
        [] e.op = "sort rows" -> FailSortRows(a, r)
        [] e.op = "sort columns" -> FailSortColumns(a, r)
        [] e.op = "swap rows" -> FailSwapRows(a, r)
        [] e.op = "colex" -> FailColex(a, r)
        [] e.op = "sort layers" -> FailSortLayers(a, r)
        [] e.op = "compare layers" -> FailCompareLayers(a, r)
        [] e.op = "apart" -> FailApart(a, r)
        [] e.op = "together" -> FailTogether(a, r)
        [] e.op = "entry counts" -> Fail(r.counts = Before(a.s), "counts")
        [] e.op = "inventory" -> FailInventory(a, r)
        [] e.op = "inventory partition" -> FailInventoryPartition(a, r)
        [] e.op = "factors of product set" -> FailProductSet(a, r)
        [] e.op = "multisubset" -> FailMultisubset(a, r)
        [] e.op = "distribution" -> FailDistribution(a, r)
        [] e.op = "repeat" -> FailRepeat(a, r)
        [] e.op = "flatten" -> FailFlatten(a, r)
        [] e.op = "key tuples" -> FailKeyTuples(a, r)
        [] e.op = "subdict" -> FailSubdict(a, r)
        [] e.op = "slice" -> FailSlice(a, r)
        [] e.op = "other entry" -> Fail(r.entry = a.p[2 - a.k], "entry")
        [] e.op = "regular" -> Fail(r.d = a.d, "d")
        [] e.op = "transposition" -> FailTransposition(a, r)
        [] OTHER -> {"unknown operation"}

Refusals ==
  {"fold refused", "determinant refused", "increase refused", "logic refused", "atom pattern refused", "row refused",
   "sierpinski refused", "cube refused", "layered refused", "palindrome refused", "sort refused", "swap refused", "apart refused", "together refused",
   "inventory refused", "key tuples refused", "other entry refused"}

Failing(e) ==
  LET a == e.a
      r == e.r
  IN  IF e.err # <<>> THEN Unreadable(e)
      ELSE IF e.op \in Refusals THEN Fail(r.rejected, "rejected")
      ELSE CASE e.op = "number" -> FailNumber(a, r)
             [] e.op = "factoradic" -> Fail(r.digits = a.digits, "digits")
             [] e.op = "not natural" -> FailNotNatural(a, r)
             [] e.op = "like integer" -> FailLikeInteger(a, r)
             [] e.op = "fold" -> Fail(r.value = FoldBits(a.ns, a.op), "value")
             [] e.op = "lcm" -> Fail(r.value = Canon(LcmBits(a.ns)), "value")
             [] e.op = "lcm of products" -> Fail(r.value = LcmOfProducts(a.products), "value")
             [] e.op = "factors" -> Fail(IsFactorization(r.factors, a.n), "factors")
             [] e.op = "factors of product" -> Fail(r.factors = a.parts, "factors")
             [] e.op = "expected factors" -> FailExpectedFactors(a, r)
             [] e.op = "binomial" -> Fail(r.value = Canon(PascalRow(a.n)[a.k + 1]), "value")
             [] e.op = "determinant" -> FailDeterminant(a, r)
             [] e.op = "integer matrix" -> Fail(r.value = (\A i \in DOMAIN a.m : \A j \in DOMAIN a.m[i] : a.m[i][j][2] = 1), "value")
             [] e.op = "logic" -> FailLogic(a, r)
             [] e.op = "logic list" -> FailLogicList(a, r)
             [] e.op = "increase" -> FailIncrease(a, r)
             [] e.op = "increase far" -> Fail(r.value = [neg |-> a.n.neg, abs |-> Canon(AddBits(a.n.abs, a.b))], "value")
             [] e.op = "increase list" -> FailIncreaseList(a, r)
             [] e.op = "atom pattern" -> FailAtomPattern(a, r)
             [] e.op = "atom patterns" -> Fail(r.patterns = [i \in 1 .. Len(a.atoms) |-> Pattern(a.atoms[i], Len(a.atoms))], "patterns")
             [] e.op = "walsh matrix" -> FailWalshMatrix(a, r)
             [] e.op = "ternary matrix" -> Fail(r.matrix = TernaryTable(a.n), "matrix") \cup Fail(r.again = TernaryTable(a.n), "again")
                                           \cup Fail(r.vectors = TernaryVectors(a.n), "vectors")
             [] e.op = "ternary text" -> Fail(r.v = a.v, "v")
             [] e.op = "sierpinski row" -> Fail(r.row = [k \in 1 .. P2(Len(a.es)) |-> Canon(SierpinskiRow(a.es)[k])], "row")
             [] e.op = "sierpinski" -> Fail(r.by_degree = SierpinskiTable(a.o, a.n), "by_degree")
                                       \cup Fail(r.by_size = SierpinskiTable(a.o, a.n), "by_size")
             [] e.op = "cube" -> Fail(Ran(r.edges) = CubeEdges(a.n) /\ LexAscending(r.edges) /\ IsInjectiveSeq(r.edges), "edges")
             [] e.op = "hasse" -> FailHasse(a, r)
             [] e.op = "power set" -> FailPowerSet(a, r)
             [] e.op = "partitions" -> Fail(Ran(r.partitions) = IntegerPartitions(a.n) /\ IsInjectiveSeq(r.partitions), "partitions")
             [] e.op = "generator" -> Fail(r.tt = Connective(a.name, a.atoms, a.n), "tt")
             [] e.op = "layered" -> Fail(r.layers = Layered(a.v), "layers")
             [] e.op = "layered places" -> FailLayeredPlaces(a, r)
             [] e.op = "atom sequence" -> FailAtomSequence(a, r)
             [] e.op = "rings" -> FailRings(a, r)
             [] e.op = "subcube" -> FailSubcube(a, r)
             [] e.op = "sides" -> FailSides(a, r)
             [] e.op = "palindrome" -> FailPalindrome(a, r)
             [] e.op = "cosets" -> FailCosets(a, r)
             [] e.op = "outline" -> Fail(IsOutline(r.path, a.m), "path") \cup Fail(r.kept, "kept")
             [] OTHER -> FailRest(e)

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
