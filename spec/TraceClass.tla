----------------------------- MODULE TraceClass -----------------------------
EXTENDS ClassSpec, TraceBase

Given(x) == Listed(x.tt, x.at)

(* --- F08 ------------------------------------------------------------------ *)
(* Elements of a class are recorded as sequences of numbers, a block with its *)
(* label as <<elements, function>>.                                           *)

Recorded(blocks) == {<<Ran(blocks[i][1]), blocks[i][2]>> : i \in DOMAIN blocks}
FailBlocks(map, r) ==
  LET labelled == LabelledBlocks(map) IN
  Fail(Recorded(r.labels) = labelled /\ Len(r.labels) = Cardinality(labelled), "labels")
  \cup Fail(SetsOf(r.blocks) = {b[1] : b \in labelled}, "blocks")
  \cup Fail(Ran(r.domain) = DOMAIN map, "domain")

Size(a) == LET f == Given(a.f) IN IF a.n = <<>> THEN Adicity(f) ELSE a.n[1]
FailFamily(a, r) == FailBlocks(FamilyMap(Given(a.f)), r)
FailFaction(a, r) == FailBlocks(FactionMap(Given(a.f), Size(a), a.full), r)
FailClan(a, r) == FailBlocks(ClanMap(Given(a.f), Size(a), a.full), r)

\* dictionaries of numbers: lists of <<key, list>>
Keyed(sets) == {<<Smallest(S), AscBits(S)>> : S \in sets}
FailSplinters(a, r) ==
  LET f == Given(a.f)
      fam == Family(f)
      splinters == {Zhes(fam \cap Faction(g, Adicity(f))) : g \in fam}
  IN  Fail(Ran(r.splinters) = Keyed(splinters), "splinters")

FailClanFactions(a, r) ==
  LET f == Given(a.f)
      clan == Clan(f, a.n)
  IN  Fail(Ran(r.factions) = Keyed({Zhes(Faction(g, a.n)) : g \in clan}), "factions")

FailParted(a, r) ==
  LET f == Given(a.f)
      n == Adicity(f)
      clan == Clan(f, n)
      rows == {Zhes(Faction(g, n)) : g \in clan}
      cols == {Zhes(Family(g)) : g \in clan}
  IN  Fail(r.faction_reps = AscBits({Smallest(S) : S \in rows}), "faction_reps")
      \cup Fail(r.family_reps = AscBits({Smallest(S) : S \in cols}), "family_reps")
      \cup Fail(Ran(r.factions) = Keyed(rows), "factions")
      \cup Fail(Ran(r.families) = Keyed(cols), "families")
      \cup Fail(Ran(r.splinters) = {<<Smallest(R), Smallest(C), AscBits(R \cap C)>> : R \in rows, C \in cols}, "splinters")

\* digit i of the key mask: entry i of the signed arrangement is negative
KeyMask(s) == Num([i \in 1 .. Len(s) |-> IF s[i] < 0 THEN 1 ELSE 0])
FailMatrix(a, r) ==
  LET f == Given(a.f)
      n == Len(f.at)
      ps == Perms(n)
      map == ClanMap(f, n, TRUE)
      ms == DOMAIN map
      zhe == TLCEval([e \in ms |-> ZheIndex(map[e])])
      key == TLCEval([e \in ms |-> KeyMask(Signs(e[1], ps[e[2] + 1]))])
      all == {zhe[e] : e \in ms}
      functions == {map[e] : e \in ms}
      rows == {Zhes(Faction(g, n)) : g \in functions}
      cols == {Zhes(Family(g)) : g \in functions}
      first == CHOOSE C \in cols : \A D \in cols : ~BitsLess(Smallest(D), Smallest(C))
      sizes == {<<Smallest(R), Cardinality(R \cap first)>> : R \in rows}
  IN  Fail(Ran(r.splinters) = {<<Smallest(R), Smallest(C), AscBits(R \cap C)>> : R \in rows, C \in cols}, "splinters")
      \cup Fail(Ran(r.sizes) = sizes, "sizes")
      \cup Fail(r.lcm = LcmOfSet({s[2] : s \in sizes}), "lcm")
      \cup Fail(Ran(r.weights) = {<<Smallest(R), Weight(Smallest(R))>> : R \in rows}, "weights")
      \cup Fail(Ran(r.row_keys) = {<<Smallest(R), Asc({key[e] : e \in {x \in ms : zhe[x] \in R}})>> : R \in rows}, "row_keys")
      \cup Fail(Ran(r.col_perms) = {<<Smallest(C), Asc({e[2] : e \in {x \in ms : zhe[x] \in C}})>> : C \in cols}, "col_perms")
      \cup Fail(Ran(r.keys) = {<<z, Asc({key[e] : e \in {x \in ms : zhe[x] = z}})>> : z \in all}, "keys")
      \cup Fail(Ran(r.vals) = {<<z, Asc({e[1] : e \in {x \in ms : zhe[x] = z}})>> : z \in all}, "vals")
      \cup Fail({<<r.triples[i][1], Ran(r.triples[i][2])>> : i \in DOMAIN r.triples}
                = {<<z, {<<key[e], e[2], e[1]>> : e \in {x \in ms : zhe[x] = z}}>> : z \in all}, "triples")

(* --- F09 ------------------------------------------------------------------ *)

FailFamilyRep(a, r) ==
  LET f == Given(a.f)
      fam == Family(f)
  IN  Fail(r.rep = MinOfClass(fam), "rep")
      \cup Fail(r.member = r.rep, "member")
      \cup Fail(r.self_complementary = (Neg(f) \in fam), "self_complementary")
      \cup Fail(r.male = (IF Odd(Weight(f.tt)) THEN <<MaleRep(f), MaleRep(f)>> ELSE <<>>), "male")
FailFactionRep(a, r) ==
  LET f == Given(a.f) IN
  Fail(r.rep = MinOfClass(Faction(f, Adicity(f))), "rep") \cup Fail(r.member = r.rep, "member")
FailClanRep(a, r) ==
  LET f == Given(a.f) IN
  Fail(r.rep = MinOfClass(Clan(f, Adicity(f))), "rep") \cup Fail(r.member = r.rep, "member")
FailRelated(a, r) ==
  LET f == Given(a.f)
      g == Substitute(f, a.args)
  IN  Fail(r.reps[1] = r.reps[2], "reps")
      \cup Fail(\A h \in {f, g} : ~BitsLess(ZheIndex(h), ZheIndex(r.reps[1])), "smallest")
      \cup Fail(r.again = r.reps[1], "again")

(* --- F15 ------------------------------------------------------------------ *)

FailSymmetry(a, r) ==
  LET f == Given(a.f)
      S == Spots(f)
  IN  Fail(r.symmetric = IsSymmetricTT(f.tt), "symmetric")
      \cup Fail(SetsOf(r.spots) = OrbitsOf(S, SignedSymmetries(f.tt)) /\ Len(r.spots) = Cardinality(SetsOf(r.spots)), "spots")
FailPlaces(a, r) ==
  LET t == a.f.tt
  IN  Fail(SetsOf(r.places) = OrbitsOf(Below(Len(t)), PermSymmetries(t)) /\ Len(r.places) = Cardinality(SetsOf(r.places)), "places")

Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "family" -> FailFamily(e.a, e.r)
         [] e.op = "faction" -> FailFaction(e.a, e.r)
         [] e.op = "clan" -> FailClan(e.a, e.r)
         [] e.op = "splinters" -> FailSplinters(e.a, e.r)
         [] e.op = "clan factions" -> FailClanFactions(e.a, e.r)
         [] e.op = "parted" -> FailParted(e.a, e.r)
         [] e.op = "matrix" -> FailMatrix(e.a, e.r)
         [] e.op = "too small" -> Fail(e.r.rejected = (e.a.n < Adicity(Given(e.a.f))), "rejected")
         [] e.op = "family rep" -> FailFamilyRep(e.a, e.r)
         [] e.op = "faction rep" -> FailFactionRep(e.a, e.r)
         [] e.op = "clan rep" -> FailClanRep(e.a, e.r)
         [] e.op = "female" -> Fail(e.r.rejected = ~Odd(Weight(Given(e.a.f).tt)), "rejected")
         [] e.op = "related" -> FailRelated(e.a, e.r)
         [] e.op = "symmetric" -> Fail(e.r.symmetric = IsSymmetricTT(Given(e.a.f).tt), "symmetric")
         [] e.op = "symmetry" -> FailSymmetry(e.a, e.r)
         [] e.op = "places" -> FailPlaces(e.a, e.r)
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
