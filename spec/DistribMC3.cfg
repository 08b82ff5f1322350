CONSTANTS
 MaxP = 3
 MaxN = 3
 P0 = 3
 N0 = 5
 M0 = 1
SPECIFICATION Spec
INVARIANTS Matching Full Partition
