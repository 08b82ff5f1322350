CONSTANTS
 MaxP = 3
 MaxN = 3
 P0 = 5
 N0 = 3
 M0 = 2
SPECIFICATION Spec
INVARIANTS Matching Full Partition
