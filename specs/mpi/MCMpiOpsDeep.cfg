SPECIFICATION Spec
CONSTANTS ALG = "mdmrg"
 STRICT = TRUE
 WS = {2}
 MAXT = 3
 ROUNDS = 2
 MAXTERMS = 1
INVARIANT Safe
