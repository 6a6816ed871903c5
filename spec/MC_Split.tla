------------------------------ MODULE MC_Split ------------------------------
(* Laws of splits, bloat, gaps, segments and fissions.                         *)
EXTENDS SplitSpec
CONSTANTS N, Every      \* number of arguments; every how many-th truth table is taken
VARIABLES t, ds

Init == t \in {b \in BitSeqs(P2(N)) : Num(b) % Every = 0} /\ ds = <<-1>>
Next == ds = <<-1>> /\ ds' \in {d \in UNION {[1 .. m -> Below(N)] : m \in 0 .. N} : IsInjectiveSeq(d)} /\ UNCHANGED t
Alone == ds = <<-1>>
F == OfTable(t)

SplitLaw ==
  Alone =>
    /\ \A p \in KeyPairs(F) :
         /\ SameSplit(F, p[1], p[2]) = ({Side(F, p[1], 0), Side(F, p[1], 1)} = {Side(F, p[2], 0), Side(F, p[2], 1)})
         /\ Overlaps(F, p[1], p[2]) = Cardinality({S \in {Side(F, p[1], a) \cap Side(F, p[2], b) : a, b \in {0, 1}} : S # {}})
         /\ LET r == Relation(F, p[1], p[2]) IN Relation(F, p[2], p[1]) = <<r[1], r[3], r[2], r[4]>>
         /\ Filtrate(F, <<p[1], p[2]>>) = Filtrate(F, <<p[2], p[1]>>)
    /\ UNION SplitBlocks(F) = Keys(F) /\ \A B, C \in SplitBlocks(F) : B = C \/ B \cap C = {}
    /\ Filtrate(F, Upto(Len(F.at))) = F
BlightLaw ==
  Alone =>
    /\ Conj(BloatFn(F), BloatlessFn(F)) = F
    /\ Conj(BlightFn(F), BlightlessFn(F)) = F
    /\ ~HasBloat(BloatlessFn(F)) /\ ~HasBlight(BlightlessFn(F))
    /\ HasBlight(F) = (BlightlessFn(F) # F)
    /\ HasBloat(F) = (BloatlessFn(F) # F)
    /\ F.at # <<>> => {BlightlessSpot(F, s) : s \in Spots(F)} = Spots(BlightlessFn(F))
    /\ Implies(F, BloatFn(F)) /\ Implies(F, BlotFn(F))
    /\ ~HasBlight(F) => \A p \in KeyPairs(F) : Overlaps(F, p[1], p[2]) \in {3, 4}
GeometryLaw ==
  Alone =>
    /\ Implies(F, GaplessFn(F))
    /\ ~HasBlight(F) => /\ ~HasBlight(GaplessFn(F)) /\ GaplessFn(GaplessFn(F)) = GaplessFn(F)
                        /\ \A T \in Hypersplits(F) : \A S \in SUBSET T : S # {} => S \in Hypersplits(F)
                        /\ \A T \in Hypersplits(F) : \A b \in (Keys(F) \ T) \ Free(F, T) :
                             Cardinality({BorderSide(F, a, b) : a \in {x \in T : Relation(F, x, b) # Crossing}}) = 1
    /\ LET S == Segments(F) IN
       /\ {Within(v) : v \in {w \in S : Dimension(w) = 0}} = {{s} : s \in Spots(F)}
       /\ \A v \in S : \A i \in DOMAIN v :
            /\ v[i] = 0 => [v EXCEPT ![i] = 1] \in S /\ [v EXCEPT ![i] = -1] \in S
            /\ v[i] # 0 /\ [v EXCEPT ![i] = 0 - @] \in S => [v EXCEPT ![i] = 0] \in S
       /\ {Within(v) : v \in {w \in S : Dimension(w) = 1}} = {{p[1], p[2]} : p \in SpotLinks(F)}
FissionLaw ==
  ~Alone =>
    /\ Zip(Fission(t, ds), ds, N) = t
    /\ \A b \in 1 .. P2(Len(ds)) : Len(Fission(t, ds)[b]) = P2(N - Len(ds))
    /\ Len(ds) = 1 => LET w == Walsh(t) parts == Fission(t, ds) a == Walsh(parts[1]) b == Walsh(parts[2])
                      IN  Fission(w, ds) = <<AddSeq(a, b), SubtractSeq(a, b)>>
=============================================================================
