SPECIFICATION Spec
CONSTANTS MaxR = 3
MaxC = 4
Vals = {0, 1, 3}
INVARIANTS Transposed SameTV RoundTrip OneBased
