----------------------------- MODULE TraceSplit -----------------------------
EXTENDS SplitSpec, TraceBase

Given(x) == Listed(x.tt, x.at)
\* the names used for the arguments: letters given for them, or the usual ones
Names(a, f) == IF a.names = <<>> THEN f.at ELSE a.names
NoRepeat(s) == Cardinality(Ran(s)) = Len(s)

(* --- F10 ------------------------------------------------------------------ *)

FailFiltrate(a, r) ==
  LET f == Given(a.f) IN Fail(r.fn = Filtrate(f, [j \in 1 .. Len(a.at) |-> PlaceIn(f.at, a.at[j])]), "fn")
FailPairs(a, r) ==
  LET f == Given(a.f)
      rel == TLCEval([p \in {q \in Keys(f) \X Keys(f) : q[1] # q[2]} |-> Relation(f, p[1], p[2])])
      Named(p) == <<Names(a, f)[p[1] + 1], Names(a, f)[p[2] + 1]>>
      Name(p) == CASE rel[p] = Crossing -> <<"crossing", Named(p)>>
                   [] rel[p] = Universal -> <<"universal", Named(p)>>
                   [] rel[p] = Disjoint -> <<"disjoint", Named(p)>>
                   [] rel[p] = Equal -> <<"equal", Named(p)>>
                   [] rel[p] = Complementary -> <<"complementary", Named(p)>>
                   [] rel[p] = Subset -> <<"subset", Named(p)>>
                   [] rel[p] = Superset -> <<"subset", Named(<<p[2], p[1]>>)>>
                   [] OTHER -> <<ToString(rel[p]), Named(p)>>
  IN  Fail(Ran(r.pairs) = {<<p, rel[p]>> : p \in KeyPairs(f)} /\ NoRepeat(r.pairs), "pairs")
      \cup Fail(Ran(r.ordered) = {<<p, rel[p]>> : p \in DOMAIN rel}, "ordered")
      \cup Fail(Ran(r.crossing) = {p \in DOMAIN rel : rel[p] = Crossing}, "crossing")
      \cup Fail(Ran(r.subset) = {p \in DOMAIN rel : rel[p] = Subset}, "subset")
      \cup Fail(Ran(r.intersect) = {p \in DOMAIN rel : rel[p] = Universal}, "intersect")
      \cup Fail(Ran(r.border) = {p \in DOMAIN rel : rel[p] \in {Universal, Subset}}, "border")
      \cup Fail(Ran(r.no_border) = {p \in DOMAIN rel : rel[p] = Crossing}, "no_border")
      \cup Fail(r.crossed = [i \in 1 .. Len(f.at) |-> Asc(CrossingWith(f, i - 1))], "crossed")
      \cup Fail(Ran(r.pretty) = {Name(p) : p \in KeyPairs(f)} /\ NoRepeat(r.pretty), "pretty")

(* --- F11 ------------------------------------------------------------------ *)

FailSplits(a, r) ==
  LET f == Given(a.f)
      blocks == SplitBlocks(f)
      count == TLCEval([p \in KeyPairs(f) |-> Overlaps(f, p[1], p[2])])
      reps == Asc(Representatives(f))
      ordered == [i \in 1 .. Len(reps) |-> CHOOSE B \in blocks : reps[i] \in B]
  IN  Fail(r.splits = [i \in 1 .. Len(f.at) |-> <<Asc(Side(f, i - 1, 1)), Asc(Side(f, i - 1, 0))>>], "splits")
      \cup Fail(Ran(r.counts) = {<<p, count[p]>> : p \in DOMAIN count} /\ NoRepeat(r.counts), "counts")
      \cup Fail(Ran(r.equal) = {<<p, SameSplit(f, p[1], p[2])>> : p \in DOMAIN count} /\ NoRepeat(r.equal), "equal")
      \cup Fail(r.onesided = [i \in 1 .. Len(f.at) |-> i - 1 \in OneSided(f)], "onesided")
      \cup Fail(r.onesided_keys = Asc(OneSided(f)), "onesided_keys")
      \cup Fail(Ran(r.universe) = {<<i, Side(f, i, 0) = {}>> : i \in OneSided(f)} /\ NoRepeat(r.universe), "universe")
      \cup Fail(r.blocks = [i \in 1 .. Len(reps) |-> Asc(ordered[i])], "blocks")
      \cup Fail(r.preferred = [i \in 1 .. Len(reps) |-> Asc(Preferred(f, ordered[i]))], "preferred")
      \cup Fail(r.distinct = Cardinality(blocks), "distinct")
      \cup Fail(Ran(r.three) = {p \in DOMAIN count : count[p] = 3} /\ NoRepeat(r.three), "three")

FailCombined(a, r) ==
  LET f == Given(a.f) IN
  Fail(SetsOf(r.parts) = (IF a.keys = <<>> THEN {} ELSE Cut(f, a.keys)) /\ NoRepeat(r.parts), "parts")

FailLinks(a, r) ==
  LET f == Given(a.f)
      links == SpotLinks(f)
      matrix == LET ss == Asc(Spots(f)) IN
        [i \in 1 .. Len(ss) |-> [j \in 1 .. Len(ss) |->
           IF i = j THEN 0
           ELSE IF a.minus[Cardinality({d \in Keys(f) : Bit(ss[i], d) # Bit(ss[j], d)})] = 1 THEN -1 ELSE 1]]
  IN  Fail(Ran(r.by_weight) = {<<Weigh(p[1]), p>> : p \in links} /\ NoRepeat(r.by_weight), "by_weight")
      \cup Fail(r.number = Cardinality(links), "number")
      \cup Fail({<<x[1], Ran(x[2])>> : x \in Ran(r.by_atom)} = {<<Names(a, f)[i + 1], LinksAlong(f, i)>> : i \in Keys(f)}, "by_atom")
      \cup Fail(Ran(r.spot_names) = {<<s, [j \in 1 .. Weigh(s) |-> Names(a, f)[Asc({i \in Keys(f) : Bit(s, i) = 1})[j] + 1]]>> : s \in Spots(f)}
                /\ NoRepeat(r.spot_names), "spot_names")
      \cup Fail(r.matrix = matrix, "matrix")

FailBundles(a, r) ==
  LET f == Given(a.f)
      bs == Bundles(f)
      Within2(B, c) == {p \in KeyPairs(f) : p[1] \in B /\ p[2] \in B /\ Overlaps(f, p[1], p[2]) = c}
  IN  IF HasBloat(f) THEN Fail(r.rejected /\ ~r.single, "rejected") \cup Fail(r.grid_rejected, "grid_rejected") ELSE
      Fail(~r.rejected, "rejected")
      \cup Fail(SetsOf(r.bundles) = bs /\ NoRepeat(r.bundles), "bundles")
      \cup Fail({<<Ran(x[1]), Ran(x[2]), Ran(x[3])>> : x \in Ran(r.counts)} = {<<B, Within2(B, 3), Within2(B, 4)>> : B \in bs}, "counts")
      \cup Fail(r.single = (Cardinality(bs) = 1), "single")
      \cup Fail(SetsOf(r.pretty) = {{Names(a, f)[i + 1] : i \in B} : B \in bs}, "pretty")
      \cup Fail({<<Ran(x[1]), SetsOf(x[2])>> : x \in Ran(r.grid)}
                = IF HasBlight(f) THEN {} ELSE {<<B, {C \in GridBlocks(f, B) : Cardinality(C) > 1}>> : B \in bs}, "grid")
      \cup Fail(r.grid_rejected = HasBlight(f), "grid_rejected")

(* --- F12 ------------------------------------------------------------------ *)

FailBlight(a, r) ==
  LET f == Given(a.f)
      one == OneSided(f)
      equal == {p \in KeyPairs(f) : EqualKeys(f, p[1], p[2])}
      comp == {p \in KeyPairs(f) : CompKeys(f, p[1], p[2])}
      true == {i \in one : Side(f, i, 0) = {}}
  IN  Fail(Ran(r.equal) = equal, "equal")
      \cup Fail(Ran(r.comp) = comp, "comp")
      \cup Fail(Ran(r.blot_true) = true, "blot_true")
      \cup Fail(Ran(r.blot_false) = one \ true, "blot_false")
      \cup Fail(Ran(r.blight_equal) = equal, "blight_equal")
      \cup Fail(Ran(r.blight_comp) = comp, "blight_comp")
      \cup Fail(Ran(r.blight_true) = true, "blight_true")
      \cup Fail(Ran(r.blight_false) = one \ true, "blight_false")
      \cup Fail(r.flags = <<~HasBloat(f), ~HasBlot(f), ~HasBlight(f)>>, "flags")
      \cup Fail(r.bloat = BloatFn(f), "bloat")
      \cup Fail(r.blot = BlotFn(f), "blot")
      \cup Fail(r.blight = BlightFn(f), "blight")
      \cup Fail(r.bloatless = BloatlessFn(f), "bloatless")
      \cup Fail(r.blightless = BlightlessFn(f), "blightless")
      \cup Fail(r.undeflated = Asc(Representatives(f)), "undeflated")
      \cup Fail(r.deflated = Asc(KeysOf(f, BloatlessFn(f))), "deflated")
      \cup Fail(r.blightless_keys = Asc(KeysOf(f, BlightlessFn(f))), "blightless_keys")

FailSpots(a, r) ==      \* each place with the spots it is mapped to; an empty list if it is rejected
  LET f == Given(a.f) IN
  Fail(r.bloatless = [k \in 1 .. Len(f.tt) |-> IF FitsBloat(f, k - 1) THEN <<BloatlessSpot(f, k - 1)>> ELSE <<>>], "bloatless")
  \cup Fail(r.blightless = [k \in 1 .. Len(f.tt) |->
              IF FitsBloat(f, k - 1) /\ FitsBlot(f, k - 1) THEN <<BlightlessSpot(f, k - 1)>> ELSE <<>>], "blightless")
  \cup Fail(r.beyond, "beyond")

(* --- F13 ------------------------------------------------------------------ *)

FailHyper(a, r) ==
  LET f == Given(a.f)
      hs == Hypersplits(f)
      Labelled(T) == {<<Gather(s, Asc(T)), {x \in Spots(f) : Gather(x, Asc(T)) = Gather(s, Asc(T))}>> : s \in Spots(f)}
  IN  IF HasBlight(f) THEN Fail(r.rejected = <<TRUE, TRUE, TRUE, TRUE>>, "rejected") ELSE
      Fail(r.rejected = <<FALSE, FALSE, FALSE, FALSE>>, "rejected")
      \cup Fail({<<x[1], Ran(x[2]), SetsOf(x[3])>> : x \in Ran(r.splits)} = {<<Cardinality(T), T, Cut(f, Asc(T))>> : T \in hs}
                /\ Len(r.splits) = Cardinality(hs) /\ \A i \in DOMAIN r.splits : r.splits[i][2] = Asc(Ran(r.splits[i][2])), "splits")
      \cup Fail({<<x[1], Ran(x[2]), {<<Num(y[1]), Ran(y[2])>> : y \in Ran(x[3])}>> : x \in Ran(r.detailed)}
                = {<<Cardinality(T), T, Labelled(T)>> : T \in hs} /\ Len(r.detailed) = Cardinality(hs), "detailed")
      \cup Fail({<<x[1], Ran(x[2]), Ran(x[3]), Ran(x[4]), Ran(x[5])>> : x \in Ran(r.cores)}
                = {<<Cardinality(T), T, Free(f, T), Determined(f, T), Cores(f, T)>> : T \in hs} /\ Len(r.cores) = Cardinality(hs)
                /\ \A i \in DOMAIN r.cores : NoRepeat(r.cores[i][5]), "cores")
      \cup Fail(r.gapless = <<GaplessFn(f)>>, "gapless")
      \cup Fail({<<x[1], {<<{<<z[1], z[2]>> : z \in Ran(y[1])}, Ran(y[2])>> : y \in Ran(x[2])}>> : x \in Ran(r.pretty)}
                = {<<Cardinality(T), {<<{<<Names(a, f)[i + 1], Bit(CHOOSE s \in y[2] : TRUE, i)>> : i \in T}, y[2]>> : y \in Labelled(T)}>> : T \in hs}, "pretty")
      \cup Fail({<<x[1], Ran(x[2]), Ran(x[3]), Ran(x[4]), Ran(x[5])>> : x \in Ran(r.pretty_cores)}
                = {<<Cardinality(T), {Names(a, f)[i + 1] : i \in T}, {Names(a, f)[i + 1] : i \in Free(f, T)},
                     {<<Names(a, f)[d[1] + 1], d[2]>> : d \in Determined(f, T)}, Cores(f, T)>> : T \in hs}, "pretty_cores")

FailSegments(a, r) ==
  LET f == Given(a.f)
      segments == Segments(f)
  IN  Fail(Ran(r.segments) = {<<Dimension(v), v>> : v \in segments} /\ NoRepeat(r.segments), "segments")
      \cup Fail(r.numbers = [d \in 1 .. Len(f.at) + 1 |-> Cardinality({v \in segments : Dimension(v) = d - 1})], "numbers")
      \cup Fail(r.connected = AllConnected(f), "connected")
      \cup Fail(r.spots = Asc(Spots(f)), "spots")
      \cup Fail({<<x[1], Ran(x[2])>> : x \in Ran(r.links)} \cup {<<i, {}>> : i \in Keys(f)}
                = {<<i, LinksAlong(f, i)>> : i \in Keys(f)} \cup {<<i, {}>> : i \in Keys(f)}, "links")
      \cup Fail({<<x[1], {<<y[1], y[2]>> : y \in Ran(x[2])}>> : x \in Ran(r.squares)} \cup {<<i, {}>> : i \in Keys(f)}
                = {<<i, OppositeLinks(f, i)>> : i \in Keys(f)} \cup {<<i, {}>> : i \in Keys(f)}, "squares")

(* --- F14 ------------------------------------------------------------------ *)

Each(Op(_), s) == [i \in 1 .. Len(s) |-> Op(s[i])]
FailFission(a, r) ==
  LET f == Given(a.f)
      n == Adicity(f)
      t == Own(f)
      parts == [i \in 1 .. n |-> Fission(t, <<i - 1>>)]
      walsh == [i \in 1 .. n |-> Each(Walsh, parts[i])]
      LayerWeights(s) == LET l == Layered(s) IN [w \in 1 .. Len(l) |-> SumSeq(l[w])]
      AbsLayers(s) == Layered(AbsSeq(s))
  IN  IF n = 0 THEN Fail(r.rejected, "rejected") ELSE
      Fail(~r.rejected, "rejected")
      \cup Fail(r.parts = parts, "parts")
      \cup Fail(r.layered = [i \in 1 .. n |-> Each(Layered, parts[i])], "layered")
      \cup Fail(r.weight = [i \in 1 .. n |-> Each(SumSeq, parts[i])], "weight")
      \cup Fail(r.layer_weight = [i \in 1 .. n |-> Each(LayerWeights, parts[i])], "layer_weight")
      \cup Fail(r.walsh = walsh, "walsh")
      \cup Fail(r.walsh_abs = [i \in 1 .. n |-> Each(AbsSeq, walsh[i])], "walsh_abs")
      \cup Fail(r.walsh_layered = [i \in 1 .. n |-> Each(Layered, walsh[i])], "walsh_layered")
      \cup Fail(r.walsh_layered_abs = [i \in 1 .. n |-> Each(AbsLayers, walsh[i])], "walsh_layered_abs")
      \cup Fail(r.zipped = [i \in 1 .. n |-> Zip(walsh[i], <<i - 1>>, n)], "zipped")
      \cup Fail(r.abs_zipped = [i \in 1 .. n |-> AbsSeq(Zip(walsh[i], <<i - 1>>, n))], "abs_zipped")
      \cup Fail(\A i \in 1 .. n : r.again[i] = t, "again")

FailHyperfission(a, r) ==
  LET f == Given(a.f)
      n == Adicity(f)
      parts == Fission(Own(f), a.dims)
      walsh == Each(Walsh, parts)
      AbsLayers(s) == Layered(AbsSeq(s))
  IN  Fail(r.parts = parts, "parts")
      \cup Fail(r.walsh = walsh, "walsh")
      \cup Fail(r.walsh_abs = Each(AbsSeq, walsh), "walsh_abs")
      \cup Fail(r.layered_abs = Each(AbsLayers, walsh), "layered_abs")
      \cup Fail(r.zipped = Zip(walsh, a.dims, n), "zipped")
      \cup Fail(Ran(r.labelled) = {<<PlacesAt(n, a.dims, b - 1), walsh[b]>> : b \in DOMAIN walsh} /\ NoRepeat(r.labelled), "labelled")

----------------------------------------------------------------------------
Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "filtrate" -> FailFiltrate(e.a, e.r)
         [] e.op = "filtrate refused" -> Fail(e.r.rejected, "rejected")
         [] e.op = "names refused" -> Fail(e.r.rejected, "rejected")
         [] e.op = "not a pair" -> Fail(e.r.rejected, "rejected")
         [] e.op = "pairs" -> FailPairs(e.a, e.r)
         [] e.op = "splits" -> FailSplits(e.a, e.r)
         [] e.op = "combined" -> FailCombined(e.a, e.r)
         [] e.op = "links" -> FailLinks(e.a, e.r)
         [] e.op = "bundles" -> FailBundles(e.a, e.r)
         [] e.op = "blight" -> FailBlight(e.a, e.r)
         [] e.op = "spots" -> FailSpots(e.a, e.r)
         [] e.op = "hyper" -> FailHyper(e.a, e.r)
         [] e.op = "segments" -> FailSegments(e.a, e.r)
         [] e.op = "fission" -> FailFission(e.a, e.r)
         [] e.op = "hyperfission" -> FailHyperfission(e.a, e.r)
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
