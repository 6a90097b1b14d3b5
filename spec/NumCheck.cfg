CONSTANT Small = {0, 1, 2, 3, 7, 8, 9, 12, 99, 9999, 10000, 10001, 12345, 45999, 99999999, 100000000, 1073741823}
SPECIFICATION Spec
INVARIANTS Ring Order Division Laws Fixed Exponential Euler
CHECK_DEADLOCK FALSE
