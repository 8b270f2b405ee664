-------------------------------- MODULE Sos --------------------------------
(***************************************************************************)
(* A cascade of second-order sections (transposed direct form II).         *)
(*                                                                         *)
(* The abstract state of a filter is what the caller owns: the sections    *)
(* with their two delay values.  One sample through one section:           *)
(*     y   = b0 x + z1                                                     *)
(*     z1' = b1 x - a1 y + z2                                              *)
(*     z2' = b2 x - a2 y                                                   *)
(* y is the next section's input.  Every entry point of the library is the *)
(* same action, Process: it differs only in how the samples are handed in. *)
(***************************************************************************)
EXTENDS Num

\* a section is <<b0, b1, b2, a0, a1, a2>> with a0 = 1
Biquad(c, d, x) ==
  LET y == R(DAdd(DMul(c[1], x), d[1])) IN
  [y |-> y,
   d |-> << R(DAdd(DSub(DMul(c[2], x), DMul(c[5], y)), d[2])),
            R(DSub(DMul(c[3], x), DMul(c[6], y))) >>]

\* one sample through the whole cascade
RECURSIVE Through(_, _, _, _, _)
Through(cs, ds, x, i, acc) ==
  IF i > Len(cs) THEN [y |-> x, d |-> acc]
  ELSE LET r == Biquad(cs[i], ds[i], x) IN Through(cs, ds, r.y, i + 1, Append(acc, r.d))
Sample(cs, ds, x) == Through(cs, ds, x, 1, <<>>)

\* a run of samples: outputs and final delays (long runs by the block, which is how TLC copes with them)
Block == 512
Short(cs, ds, xs) ==
  FoldLeft(LAMBDA acc, x : LET r == Sample(cs, acc.d, x) IN
                           [y |-> Append(acc.y, r.y), d |-> r.d],
           [y |-> <<>>, d |-> ds], xs)
Long(cs, ds, xs) ==
  LET blocks == (Len(xs) + Block - 1) \div Block
      all == FoldLeft(LAMBDA acc, k : LET r == Short(cs, acc.d, SubSeq(xs, (k - 1) * Block + 1, IF k = blocks THEN Len(xs) ELSE k * Block)) IN
                                      [y |-> Append(acc.y, r.y), d |-> r.d],
                      [y |-> <<>>, d |-> ds], [k \in 1..blocks |-> k])
  IN [y |-> FlattenSeq(all.y), d |-> all.d]
Run(cs, ds, xs) == IF Len(xs) <= Block THEN Short(cs, ds, xs) ELSE Long(cs, ds, xs)

Flat(ds) == FlattenSeq(ds)
=============================================================================
