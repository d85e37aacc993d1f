SPECIFICATION Spec
CONSTANTS MaxR = 3
MaxC = 3
Vals = {0, 1}
INVARIANTS Transposed SameTV RoundTrip OneBased
