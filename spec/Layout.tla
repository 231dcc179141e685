------------------------------- MODULE Layout ------------------------------
(* Objects are sequences of cells; every view addresses cells of the object  *)
(* itself.  Matrices are column-major.                                       *)
EXTENDS Mat

Write(m, k, x) == [m EXCEPT ![k] = x]
WriteRange(m, lo, hi, xs) == [i \in 1..Len(m) |-> IF lo <= i /\ i <= hi THEN xs[i] ELSE m[i]]
Select(m, idx) == [i \in 1..Len(idx) |-> m[idx[i]]]

LayPost(o, d, a, r) ==
  CASE o = "all"    -> r = a[1]
    [] o = "range"  -> r = SubSeq(a[1], d[2], d[3])
    [] o = "w"      -> r = Write(a[1], d[2], a[2][1])
    [] o = "wrange" -> r = WriteRange(a[1], d[2], d[3], a[2])
    [] o = "oob"    -> r = <<-9>>                        \* out of range: refused
    [] o = "off"    -> r = <<d[2] - 1, 0>>               \* cell k lies k-1 cells after the first
    [] o = "size"   -> r = <<d[1], 0>>                   \* no padding
    [] o = "moved"  -> r = <<0, 0>> \o a[1]              \* no element dropped on the way, each exactly once afterwards
    [] o = "len"    -> r = <<d[1], 0, d[1]>>
    [] o = "shape"  -> r = <<d[1], d[2]>>
    [] o = "count"  -> r = [i \in 1..d[1] |-> i]
    [] o = "field"  -> r = <<At(a[1], d[1], d[4] + 1, d[3] + 1)>>
    [] o = "swz"    -> r = Select(a[1], d)
=============================================================================
