----------------------------- MODULE MC_Linear -----------------------------
(* Laws of linear functions and nobles.                                       *)
EXTENDS LinearSpec
CONSTANT N
VARIABLES t, u

Pick == <<>>
Init == t \in BitSeqs(P2(N)) /\ u = Pick
Next == u = Pick /\ u' \in BitSeqs(P2(N)) /\ UNCHANGED t
Alone == u = Pick

Linears == {LinearTT(w, odd, N) : w \in Below(P2(N)), odd \in {0, 1}}
RECURSIVE XorAll(_)
XorAll(S) == IF S = {} THEN Zeros(P2(N)) ELSE LET x == CHOOSE x \in S : TRUE IN Xor(x[2], XorAll(S \ {x}))
Xand(m) == [k \in 1 .. P2(N) |-> IF Odd(SharedDigits(m, k - 1, N)) = Odd(Weigh(m)) THEN 1 ELSE 0]

LinearLaw ==
  Alone =>
    /\ IsLinearTT(t) = (t \in Linears)
    /\ \A w \in Below(P2(N)) : Row(w, N) = [k \in 1 .. P2(N) |-> SharedDigits(w, k - 1, N) % 2]
    /\ IsLinearTT(t) => /\ OfTable(t) = LinearFn(WalshIndex(t), t[1])
                        /\ RowOfLeader(LeaderOfRow(WalshIndex(t)), QuadrantOfRow(WalshIndex(t), t[1])) = WalshIndex(t)
                        /\ OddOfQuadrant(QuadrantOfRow(WalshIndex(t), t[1])) = t[1]
                        /\ N > 0 => QuadrantOfRow(WalshIndex(t), t[1]) = t[1] + 2 * t[Len(t)]
    /\ Row(Consul(t), N) = [k \in 1 .. P2(N) |-> Cardinality({j \in Ones(t) : Odd(SharedDigits(j, k - 1, N))}) % 2]
    /\ LET w == Walsh(t) d == Distances(t)
       IN  \A k \in Below(P2(N)) : d[k + 1] = (IF k = 0 THEN w[1] ELSE w[k + 1] + P2(N - 1))
    /\ LET z == Zhegalkin(t) IN PrefectTT(z) = XorAll({<<m, Xand(m)>> : m \in Ones(z)})
Nobles == {x \in BitSeqs(P2(N)) : IsNoble(x)}
NobleLaw ==
  Alone =>
    /\ IsNoble(Patron(t))
    /\ IsNoble(t) => /\ N > 0 => NobleOf(NobleIndex(t)) = t
                     /\ IsNoble(Royal(t)) /\ NobleQuadrant(Royal(t)) = 0
                     /\ N > 0 => NobleQuadrant(t) = t[2] + 2 * t[Len(t)]
                     /\ N > 0 => Zhegalkin(Praetor(t)) = NobleIndex(t)
    /\ Quadrant(Leader(t)) = 0
    /\ Leader(t) = LET s == Not(t) IN CASE Quadrant(t) = 0 -> t [] Quadrant(t) = 1 -> Zhegalkin(Not(Zhegalkin(t)))
                                        [] Quadrant(t) = 2 -> Zhegalkin(Not(Zhegalkin(s))) [] Quadrant(t) = 3 -> s
    /\ N > 0 => \A i \in BitSeqs(P2(N - 1)) : t = NobleOf(i) => IsNoble(t)
    /\ IsOdious(Zhegalkin(t)) = IsSharp(t)
Pairs ==
  ~Alone =>
    /\ Patron(Xor(t, u)) = Xor(Patron(t), Patron(u))
    /\ N > 0 /\ IsNoble(t) /\ IsNoble(u) => (BitsLess(t, u) = BitsLess(NobleIndex(t), NobleIndex(u)))
    /\ IsNoble(t) /\ IsNoble(u) /\ Royal(t) = Royal(u) /\ NobleQuadrant(t) = NobleQuadrant(u) => t = u
=============================================================================
