SPECIFICATION Spec
CONSTANTS OptSets = {1,2,3,4}
 Alphabet = {"-i", "--un", "-f", "-5", "5", "t", "-", "--", "-h", "-z"}
 MaxTok = 4
 MaxLines = 1
 Gen = FALSE
INVARIANTS Agree O01 O02 O03 O03stored O04 O07
CHECK_DEADLOCK FALSE
