----------------------------- MODULE TraceReport -----------------------------
EXTENDS ReportSpec, TraceBase

Given(x) == Listed(x.tt, x.at)

(* --- R01 -------------------------------------------------------------------- *)

FailRow(a, r) ==
  LET f == Given(a.f)
      z == ZheIndex(f)
      w == Weight(f.tt)
      n == Len(f.at)
      bs == Diagram!Bundles(f)
      size == IF SizeClass(r.vnum) > SizeClass(r.vden) THEN SizeClass(r.vnum) ELSE SizeClass(r.vden)
  IN  Fail(~Diagram!HasBlight(f) /\ f = Root(f), "allowed")
      \cup Fail(r.number = z, "number")
      \cup Fail(r.odd = (z # <<>> /\ z[1] = 1), "odd")
      \cup Fail(r.number_size = SizeClass(z), "number_size")
      \cup Fail(SameRatio(r.vnum, r.vden, ValueNum(f), ValueDen(f)), "value")
      \cup Fail(r.vden # <<>> /\ GcdOdd(r.vnum, r.vden) = <<1>>, "lowest terms")
      \cup Fail(r.value_size = size, "value_size")
      \* the digits after the point: right up to the fifteenth
      \cup Fail(BitsLess(MulBits(Gap(MulBits(r.vdec, ValueDen(f)), MulBits(ValueNum(f), Ten20)), Ten15), MulBits(Ten20, ValueDen(f))), "vdec")
      \cup Fail(r.value_half = Compare(<<0>> \o ValueNum(f), ValueDen(f)), "value_half")
      \cup Fail(r.weight[1] * P2(n) = r.weight[2] * w /\ Gcd(r.weight[1], r.weight[2]) = 1, "weight")
      \cup Fail(SameRatio(r.wdec[1], TenTo(r.wdec[2]), BitsOf(w), BitsOf(P2(n))), "wdec")
      \cup Fail(r.weight_half = (IF 2 * w < P2(n) THEN -1 ELSE IF 2 * w = P2(n) THEN 0 ELSE 1), "weight_half")
      \cup Fail(r.full_weight = <<w, P2(n)>>, "full_weight")
      \cup Fail(r.arity = n, "arity")
      \cup Fail(r.bundles = Cardinality(bs), "bundles")
      \cup Fail(r.single = (Cardinality(bs) = 1), "single")
      \cup Fail(r.names = a.names, "names")

FailClanTable(a, r) ==
  LET f == Given(a.f)
      n == Len(f.at)
      ps == Perms(n)
      map == ClanMap(f, n, TRUE)
      ms == DOMAIN map
      sign == TLCEval([e \in ms |-> Signs(e[1], ps[e[2] + 1])])
      zhe == TLCEval([e \in ms |-> ZheIndex(map[e])])
      key == TLCEval([e \in ms |-> KeyMaskOf(sign[e])])
      functions == {map[e] : e \in ms}
      rows == TLCEval({Zhes(Faction(g, n)) : g \in functions})
      cols == TLCEval({Zhes(Family(g)) : g \in functions})
      lows == {Smallest(R) : R \in rows}
      lefts == {Smallest(C) : C \in cols}
      rowreps == AscBits(lows)
      colreps == AscBits(lefts)
      Row(z) == CHOOSE R \in rows : z \in R
      Col(z) == CHOOSE C \in cols : z \in C
      size == TLCEval([R \in rows |-> Cardinality(R \cap Col(colreps[1]))])
      all == LcmOfSet({size[R] : R \in rows})
      \* a cell: the small table of the signed permutations that lead to the function
      SmallTable(z, c) ==
        LET es == {e \in ms : zhe[e] = z}
            ks == ByWeight({key[e] : e \in es})
            vs == ByWeight({e[1] : e \in es})
        IN  /\ c.icons = vs /\ c.columns = vs /\ c.lines = ks
            /\ c.column_borders = Borders(vs) /\ c.icon_borders = Borders(vs) /\ c.line_borders = Borders(ks)
            /\ Len(c.entries) = Len(ks)
            /\ \A i \in DOMAIN ks : Len(c.entries[i]) = Len(vs) /\ \A j \in DOMAIN vs :
                 LET here == Asc({e[2] : e \in {x \in es : key[x] = ks[i] /\ x[1] = vs[j]}})
                 IN  c.entries[i][j] = [m \in DOMAIN here |-> <<here[m], sign[<<vs[j], here[m]>>]>>]
      Cell(z, c) ==
        /\ c.span = all \div size[Row(z)]
        /\ c.base = (\E e \in ms : zhe[e] = z /\ e[1] = 0 /\ e[2] = 0)
        /\ c.lowest_of_row = (z \in lows) /\ c.lowest_of_col = (z \in lefts)
        /\ c.bits = Pad(z, P2(n)) /\ c.table = OfZhe(z).tt
        /\ c.venn = (IF n \in {2, 3} THEN OfZhe(z).tt ELSE <<>>)
      \* the cells of a row come in groups, one for each column
      Part(k, j) == SubSeq(r.rows[k].cells, (j - 1) * size[Row(rowreps[k])] + 1, j * size[Row(rowreps[k])])
      Line(k) ==
        LET R == Row(rowreps[k])
            masks == {key[e] : e \in {x \in ms : zhe[x] \in R}}
            ws == Asc(Weights(masks))
        IN  /\ r.rows[k].rep = rowreps[k] /\ r.rows[k].weight = Weight(rowreps[k])
            /\ r.rows[k].number = Cardinality(R)
            /\ r.rows[k].mask_weights = ws
            /\ r.rows[k].masks = [i \in DOMAIN ws |-> Asc({m \in masks : Weigh(m) = ws[i]})]
            /\ r.rows[k].sort_sum = SumSeq(ws) /\ r.rows[k].sort_digits = ws
      Groups(k) ==
        /\ Len(r.rows[k].cells) = Len(colreps) * size[Row(rowreps[k])]
        /\ \A j \in DOMAIN colreps :
             LET p == Part(k, j) IN
             /\ {p[i].number : i \in DOMAIN p} = Row(rowreps[k]) \cap Col(colreps[j])
             /\ \A i \in DOMAIN p : p[i].border = (i = Len(p))
  IN  Fail(Len(r.columns) = Len(colreps) /\ \A j \in DOMAIN r.columns :
             /\ r.columns[j].rep = colreps[j] /\ r.columns[j].span = all
             /\ r.columns[j].perms = Asc({e[2] : e \in {x \in ms : zhe[x] \in Col(colreps[j])}}), "columns")
      \cup (IF Len(r.rows) # Len(rowreps) THEN {"rows"} ELSE
            Fail(\A k \in DOMAIN rowreps : Line(k), "rows")
            \cup Fail(\A k \in DOMAIN rowreps : Groups(k), "groups")
            \cup Fail(\A k \in DOMAIN rowreps : \A i \in DOMAIN r.rows[k].cells :
                        LET c == r.rows[k].cells[i] IN \E R \in rows : c.number \in R, "members")
            \cup Fail(\A k \in DOMAIN rowreps : \A i \in DOMAIN r.rows[k].cells :
                        LET c == r.rows[k].cells[i] IN (\E R \in rows : c.number \in R) => Cell(c.number, c), "cells")
            \cup Fail(\A k \in DOMAIN rowreps : \A i \in DOMAIN r.rows[k].cells :
                        LET c == r.rows[k].cells[i] IN (\E R \in rows : c.number \in R) => SmallTable(c.number, c), "small tables"))
      \cup Fail(r.four = (n = 4), "four")

FailSwan(a, r) ==
  LET S == {Own(Given(x)) : x \in Ran(a.fs)}
      sorted == SortedTables(S, a.vero)
  IN  Fail(r.swan = OfTable(Swan(S, a.vero)), "swan")
      \cup Fail(r.tables = IF a.shown THEN sorted ELSE <<>>, "tables")
      \cup Fail(r.weights = IF a.shown THEN [i \in DOMAIN sorted |-> LayerWeights(sorted[i])] ELSE <<>>, "weights")
      \cup Fail(r.layers = IF a.shown THEN [i \in DOMAIN sorted |-> Layered(sorted[i])] ELSE <<>>, "layers")

Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "row" -> FailRow(e.a, e.r)
         [] e.op = "row refused" -> LET f == Given(e.a.f) IN Fail(e.r.rejected = (Diagram!HasBlight(f) \/ f # Root(f)), "rejected")
         [] e.op = "clan table" -> FailClanTable(e.a, e.r)
         [] e.op = "swan" -> FailSwan(e.a, e.r)
         [] e.op = "signs" -> Fail(e.r.text = LineUp(e.a.text), "text")
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
