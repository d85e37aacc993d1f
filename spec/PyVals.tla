------------------------------ MODULE PyVals ------------------------------
(* What a call of a Python function must do, decided from its arguments alone.
   c: parse (1: right number of arguments, known keywords, scalars of the right
   type), bok / iok (the data / index object converts to doubles / C ints without
   loss), bnd, ind numbers of dimensions, nb, ni lengths, mrow, mcol, dct, bp
   modes, imin, imax extreme indices, av, ah signs of the TV weights, bad (1: the
   solver itself must report failure), free (1: outside the claimed domain).  For
   breg: bok, bnd, mrow, mcol describe the image. *)
EXTENDS Integers
MaxInt == 2147483647
DimsOk(c) == c.mrow >= 1 /\ c.mcol >= 1 /\ c.mrow <= MaxInt \div c.mcol
ModesOk(c) == c.dct \in {1, 2} /\ c.bp \in {1, 2}
ArraysOk(c) == c.bok = 1 /\ c.iok = 1 /\ c.bnd = 1 /\ c.ind = 1
LengthsOk(c) == c.nb = c.ni /\ c.nb >= 1 /\ c.nb <= c.mrow * c.mcol
IndicesOk(c) == c.imin >= 0 /\ c.imax < c.mrow * c.mcol
WeightsOk(c) == c.av >= 0 /\ c.ah >= 0 /\ (IF c.av > 0 \/ c.ah > 0 THEN c.mrow >= 3 /\ c.mcol >= 3 ELSE TRUE)
SampledOk(c) == IF DimsOk(c) /\ ModesOk(c) /\ ArraysOk(c) THEN LengthsOk(c) /\ IndicesOk(c) /\ WeightsOk(c) /\ c.bad = 0 ELSE FALSE
ImageOk(c) == c.bok = 1 /\ c.bnd = 2 /\ c.mrow >= 3 /\ c.mcol >= 3
Outcome(c) == IF c.parse = 0 THEN "raise"
              ELSE IF c.fn = "breg" THEN (IF ImageOk(c) THEN (IF c.free = 1 THEN "any" ELSE "data") ELSE "raise")
              ELSE IF ~SampledOk(c) THEN "raise"
              ELSE IF c.free = 1 THEN "any" ELSE "data"
===========================================================================
