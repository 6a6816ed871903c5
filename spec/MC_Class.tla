----------------------------- MODULE MC_Class -----------------------------
(* Laws of the classes: the numbered members are the class, classes are       *)
(* disjoint or equal, their size divides the group, representatives are unique.*)
EXTENDS ClassSpec
CONSTANT N
VARIABLES t, u

Init == t \in BitSeqs(P2(N)) /\ u = <<>>
Next == u = <<>> /\ u' \in BitSeqs(P2(N)) /\ UNCHANGED t
Alone == u = <<>>
Range(map) == {map[e] : e \in DOMAIN map}
F == OfTable(t)
G == OfTable(u)
GroupSize == P2(N) * Len(Perms(N))

Members ==
  Alone =>
    /\ Range(FamilyMap(F)) = Family(F)
    /\ \A n \in Adicity(F) .. N, full \in {TRUE, FALSE} :
          /\ Range(FactionMap(F, n, full)) = Faction(F, n)
          /\ Range(ClanMap(F, n, full)) = Clan(F, n)
    /\ \A g \in Family(F) : Weight(g.tt) = Weight(F.tt) /\ g.at = F.at
    /\ \A g \in Faction(F, N) : Weight(Zhegalkin(Own(g))) = Weight(Zhegalkin(Own(F)))
Sizes ==
  Alone =>
    /\ Cardinality(Clan(F, N)) * Cardinality(SignedSymmetries(t)) = GroupSize
    /\ Cardinality(Faction(F, N)) * Cardinality(PermSymmetries(t)) = Len(Perms(N))
    /\ IsSymmetricTT(F.tt) = (Faction(Root(F), Len(F.at)) = {Root(F)})
    /\ \A s \in SignedArrangements(N) : [k \in 1 .. Len(t) |-> t[1 + PlaceTo(s, k - 1)]] = TT(ActOn(F, s), N)
    /\ UNION OrbitsOf(Below(P2(N)), SignedSymmetries(t)) = Below(P2(N))
Reps ==
  Alone =>
    /\ Odd(Weight(F.tt)) => Cardinality({g \in Family(F) : Fulfils(g.tt)}) = 1
    /\ MinOfClass(Family(F)) \in Family(F)
    /\ MinOfClass(Faction(F, N)) \in Faction(F, Adicity(F))
    /\ MinOfClass(Clan(F, N)) = MinOfClass(Clan(F, Adicity(F)))
Disjoint ==
  ~Alone =>
    /\ (G \in Clan(F, N)) = (Clan(F, N) = Clan(G, N))
    /\ (G \in Faction(F, N)) = (Faction(F, N) = Faction(G, N))
    /\ (G \in Family(F)) = (Family(F) = Family(G))
    /\ (MinOfClass(Clan(F, N)) = MinOfClass(Clan(G, N))) = (G \in Clan(F, N))
=============================================================================
