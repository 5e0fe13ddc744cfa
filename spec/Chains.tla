-------------------------------- MODULE Chains --------------------------------
(***************************************************************************)
(* Every nonterminal inside every other.  A chain goes down the shortest   *)
(* way from StoredDefinition to the outer nonterminal and from there the   *)
(* shortest way to the inner one (which may be the same again).            *)
(***************************************************************************)
EXTENDS Derive

(* Ways[a][b]: the shortest chain from a to b with at least one step.      *)
Ways ==
  LET mt == TLCEval(MentionTable)
      from == TLCEval([a \in Range(Tbl.goals) |-> PathFix(mt, [n \in {a} |-> <<a>>], {a})])
      back(a) == {from[m][a] : m \in {x \in mt[a] : a \in DOMAIN from[x]}}
      shortest(set) == CHOOSE p \in set : \A q \in set : Len(p) <= Len(q)
  IN [a \in Range(Tbl.goals) |->
        [b \in (DOMAIN from[a] \ {a}) \cup (IF back(a) # {} THEN {a} ELSE {}) |->
           IF a # b THEN Tail(from[a][b]) ELSE shortest(back(a))]]
AllChains == UNION {{Tbl.paths[a] \o TLCGet(12)[a][b] : b \in DOMAIN TLCGet(12)[a]} : a \in Range(Tbl.goals)}

\* computed once, and kept in TLC registers
Numbers == TLCEval([n \in Range(Tbl.goals) |-> CHOOSE i \in 1..Len(Tbl.goals) : Tbl.goals[i] = n])
ChainsReady == TLCSet(12, TLCEval(Ways)) /\ TLCSet(13, Numbers)
ChainHash(ch) == FoldLeft(LAMBDA acc, n : (acc * 37 + TLCGet(13)[n]) % 65521, Len(ch), ch)
=============================================================================
