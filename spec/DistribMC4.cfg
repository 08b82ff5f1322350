CONSTANTS
 MaxP = 16
 MaxN = 24
 P0 = 7
 N0 = 3
 M0 = 3
SPECIFICATION Spec
INVARIANTS Matching Full Partition
