CONSTANTS
 MaxP = 9
 MaxN = 12
 P0 = 6
 N0 = 2
 M0 = 2
SPECIFICATION Spec
INVARIANTS Matching Full Partition
