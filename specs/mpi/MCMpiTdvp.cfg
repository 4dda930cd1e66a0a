SPECIFICATION Spec
CONSTANTS ALG = "mtdvp"
 STRICT = TRUE
 WS = {1, 2}
 MAXT = 3
 ROUNDS = 1
 MAXTERMS = 1
INVARIANT Safe
