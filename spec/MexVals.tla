------------------------------ MODULE MexVals ------------------------------
(* What a call of a mex function must do, decided from its arguments alone.
   c: nin inputs given, sok (scalar arguments are real double scalars), bok / iok
   (data / index argument is a full real double array), bvec / ivec (it is a
   vector with at least two elements), stok (options are a 1x1 struct), fok (every
   required field present and of the right type and value), nb, ni lengths, mrow,
   mcol, ilow (1: some index below 1 or not a number), ihigh (1: some index beyond
   the last pixel), av, ah signs of the TV weights, bad (1: the solver itself must
   fail), bnd number of dimensions of the image (breg). *)
EXTENDS Integers
MaxInt == 2147483647
DimsOk(c) == c.mrow >= 1 /\ c.mcol >= 1 /\ c.mrow <= MaxInt \div c.mcol
ArgsOk(c) == c.nin >= 5 /\ c.sok = 1 /\ c.bok = 1 /\ c.iok = 1 /\ c.bvec = 1 /\ c.ivec = 1 /\ c.stok = 1 /\ c.fok = 1
LengthsOk(c) == c.nb = c.ni /\ c.nb < c.mrow * c.mcol
IndicesOk(c) == c.ilow = 0 /\ c.ihigh = 0
WeightsOk(c) == c.av >= 0 /\ c.ah >= 0 /\ (IF c.av > 0 \/ c.ah > 0 THEN c.mrow >= 3 /\ c.mcol >= 3 ELSE TRUE)
SampledOk(c) == IF DimsOk(c) /\ ArgsOk(c) THEN LengthsOk(c) /\ IndicesOk(c) /\ WeightsOk(c) ELSE FALSE
ImageOk(c) == c.nin >= 4 /\ c.sok = 1 /\ c.bok = 1 /\ c.bnd = 2 /\ c.mrow >= 3 /\ c.mcol >= 3
Outcome(c) == IF c.fn = "breg" THEN (IF ImageOk(c) THEN "data" ELSE "raise")
              ELSE IF ~SampledOk(c) THEN "raise"
              ELSE IF c.bad = 1 THEN "report" ELSE "data"
(* documented result shapes *)
Shape(c) == IF c.fn = "l1qc" THEN <<c.mrow * c.mcol, 1>> ELSE <<c.mrow, c.mcol>>
============================================================================
