SPECIFICATION Spec
CONSTANTS ALG = "mdmrg"
 STRICT = FALSE
 WS = {1, 2}
 MAXT = 3
 ROUNDS = 1
 MAXTERMS = 1
INVARIANT Safe
