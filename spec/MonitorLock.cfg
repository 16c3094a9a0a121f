SPECIFICATION Spec
INVARIANTS Exclusive Consistent NoneLost
CONSTANTS Readers = {r1, r2} Writers = {w1, w2} Depth = 1 Rounds = 3
