-------------------------------- MODULE MCLexis --------------------------------
(* Prints the tables of Lexis for the test driver.                          *)
EXTENDS Lexis, Json
VARIABLE x
Init == x = 0 /\ PrintT("CASE " \o ToJson(Lexis))
Next == x' = x
=============================================================================
