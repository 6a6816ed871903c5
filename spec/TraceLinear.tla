----------------------------- MODULE TraceLinear -----------------------------
EXTENDS LinearSpec, TraceBase

Given(x) == Listed(x.tt, x.at)

(* --- F06 ------------------------------------------------------------------ *)

FailWalsh(a, r) ==
  LET f == Given(a.f)
      t == TT(f, a.n)
      w == Walsh(t)
      z == Zhegalkin(Own(f))
      p == PrefectIndex(z)
      odd == PrefectOdd(z)
  IN  Fail(r.spectrum = w, "spectrum")
      \cup Fail(r.own = Walsh(Own(f)), "own")
      \cup Fail(r.over = Walsh(Table(f, Asc(Ran(a.at)))), "over")
      \cup Fail(r.abs = Abs(w), "abs")
      \cup Fail(r.layered = Layered(w), "layered")
      \cup Fail(r.abs_layered = Layered(Abs(w)), "abs_layered")
      \cup Fail(r.again = f, "again")
      \cup Fail(r.distances = Distances(t), "distances")
      \cup Fail(r.consul = Consul(t), "consul")
      \cup Fail(r.own_consul = Consul(Own(f)), "own_consul")
      \cup Fail(r.consul_weight = Weigh(Consul(t)), "consul_weight")
      \cup Fail(r.consul_slow = (IF a.n <= 5 THEN <<Consul(t)>> ELSE <<>>), "consul_slow")
      \cup Fail(r.linear = IsLinearTT(f.tt), "linear")
      \cup Fail(r.prefect_tt = PrefectTT(z), "prefect_tt")
      \cup Fail(r.prefect = OfTable(PrefectTT(z)), "prefect")
      \cup Fail(r.prefect_walsh = <<p, odd>>, "prefect_walsh")
      \cup Fail(r.prefect_leader = <<LeaderOfRow(p), QuadrantOfRow(p, odd)>>, "prefect_leader")

FailPrefect(a, r) == Fail(r.prefect = <<PrefectIndex(a.z), PrefectOdd(a.z)>>, "prefect")

FailLinear(a, r) ==
  LET t == LinearTT(a.w, a.odd, a.n)
      f == LinearFn(a.w, a.odd)
      l == LeaderOfRow(a.w)
      q == QuadrantOfRow(a.w, a.odd)
  IN  Fail(r.vector = <<t, t>>, "vector")
      \cup Fail(r.fn = <<f, f>>, "fn")
      \cup Fail(r.walsh = [i \in 1 .. Len(r.walsh) |-> <<a.w, a.odd>>], "walsh")
      \cup Fail(r.leader = [i \in 1 .. Len(r.leader) |-> <<l, q>>], "leader")
      \cup Fail(r.index = [i \in 1 .. Len(r.index) |-> a.w], "index")

(* --- F07 ------------------------------------------------------------------ *)

FailNoble(a, r) ==
  LET t == NobleOf(a.i)
      q == NobleQuadrant(t)
  IN  Fail(r.noble = Canon(t), "noble")
      \cup Fail(r.index = Canon(a.i), "index")
      \cup Fail(r.trusted = Canon(a.i), "trusted")
      \cup Fail(r.quadrant = q, "quadrant")
      \cup Fail(r.royal = Canon(Royal(t)), "royal")
      \cup Fail(r.royal_quadrant = <<Canon(Royal(t)), BitsOf(q)>>, "royal_quadrant")

FailFoibles(a, r) ==
  LET f == Given(a.f)
      n == a.n
      t == TT(f, n)
      p == Patron(t)
      odd == IsOdd(t)
      odious == IsOdious(t)
      sharp == IsSharp(t)
      ugly == Sum2(odd, odious)
      acute == Sum2(ugly, sharp)
      quad == Quadrant(f.tt)
  IN  Fail(r.basic = <<odd, odious, ugly, IsSharp(f.tt)>>, "basic")
      \cup Fail(r.at_arity = <<sharp, acute, Sum2(odd, sharp), Sum2(odious, sharp)>>, "at_arity")
      \cup Fail(r.quadrants = <<quad, Sum2(odious, sharp) + 2 * odious, ugly + 2 * acute, quad + 4 * acute>>, "quadrants")
      \cup Fail(r.leader = OfTable(Leader(t)), "leader")
      \cup Fail(r.noble = IsNoble(t), "noble")
      \cup Fail(r.noble_quadrant = (IF n > 0 /\ IsNoble(t) THEN <<NobleQuadrant(t)>> ELSE <<>>), "noble_quadrant")
      \cup Fail(r.patron_int = Canon(p), "patron_int")
      \cup Fail(r.patron = OfTable(p), "patron")
      \cup Fail(r.patron_index = Canon(NobleIndex(p)), "patron_index")
      \cup Fail(r.patron_royal = Canon(Royal(p)), "patron_royal")
      \cup Fail(r.patron_quadrant = NobleQuadrant(p), "patron_quadrant")
      \cup Fail(r.coordinates = (IF n = 0 THEN <<>> ELSE <<Canon(Half(t, 0)), Canon(Rev(Half(t, 1)))>>), "coordinates")
      \cup Fail(r.solid = (IF n < 2 THEN <<>> ELSE <<IsSolid(t)>>), "solid")

FailOwn(a, r) ==                                            \* arity left to the function
  LET f == Given(a.f)
      t == Own(f)
      ugly == Sum2(IsOdd(t), IsOdious(t))
      acute == Sum2(ugly, IsSharp(t))
  IN  Fail(r.quadrants = <<Sum2(IsOdious(t), IsSharp(t)) + 2 * IsOdious(t), ugly + 2 * acute, Quadrant(f.tt) + 4 * acute>>, "quadrants")
      \cup Fail(r.leader = OfTable(Leader(t)), "leader")
      \cup Fail(r.noble = IsNoble(t), "noble")

FailKing(a, r) ==
  LET t == a.tt
      k == King(Patron(t))
  IN  Fail(r.king = <<Canon(k), BitsOf(NobleQuadrant(Patron(t)))>>, "king")
      \cup Fail(r.king_index = <<Canon(NobleIndex(k)), BitsOf(NobleQuadrant(Patron(t)))>>, "king_index")
      \cup Fail(r.patron_king = <<Canon(NobleIndex(k)), BitsOf(NobleQuadrant(Patron(t)))>>, "patron_king")

FailPraetor(a, r) == Fail(r.praetor = Canon(Praetor(a.tt)), "praetor")
FailCoordinates(a, r) == Fail(r.tt = Pad(a.i, Len(a.i)) \o Rev(a.j), "tt")

Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "walsh" -> FailWalsh(e.a, e.r)
         [] e.op = "prefect" -> FailPrefect(e.a, e.r)
         [] e.op = "linear" -> FailLinear(e.a, e.r)
         [] e.op = "linear?" -> Fail(e.r.rejected = ~(IsPow2(Len(e.a.tt)) /\ (e.a.signed \/ e.a.tt[1] = 0) /\ IsLinearTT(e.a.tt)), "rejected")
         [] e.op = "walsh matrix" -> Fail(e.r.rows = [w \in 1 .. P2(e.a.n) |-> LinearTT(w - 1, e.a.odd, e.a.n)], "rows")
         [] e.op = "noble" -> FailNoble(e.a, e.r)
         [] e.op = "noble?" -> Fail(e.r.rejected = ~(Len(e.a.tt) = P2(e.a.n) /\ IsNoble(e.a.tt)), "rejected")
         [] e.op = "index?" -> Fail(e.r.rejected = (Need(e.a.i) > (IF e.a.n = 0 THEN 0 ELSE P2(e.a.n - 1))), "rejected")
         [] e.op = "foibles" -> FailFoibles(e.a, e.r)
         [] e.op = "own" -> FailOwn(e.a, e.r)
         [] e.op = "king" -> FailKing(e.a, e.r)
         [] e.op = "praetor" -> FailPraetor(e.a, e.r)
         [] e.op = "coordinates" -> FailCoordinates(e.a, e.r)
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
