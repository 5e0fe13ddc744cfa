-------------------------------- MODULE MCViable --------------------------------
(***************************************************************************)
(* Which token may follow.  The behaviours are those of the recogniser on  *)
(* the derivations with at most MaxDev choices (see MCScripts): the state  *)
(* is the recogniser's, and every transition reads the next token of the   *)
(* derivation.  In every state between the first and the last token of the *)
(* goal the set of viable kinds is printed for the driver, which puts      *)
(* every kind of token there.                                              *)
(* Whole: the derivations are files; otherwise they are fragments, which   *)
(* start at the goal.                                                      *)
(* OwnRule: the choices are those of the rule of the goal.                 *)
(* Everywhere: the goals are not only derived where the shortest way to    *)
(* them leads, but inside every other nonterminal (Part of Parts of them). *)
(***************************************************************************)
EXTENDS Derive, Chains, Recogniser, Json
CONSTANTS MaxDev, Whole, OwnRule, Everywhere, Part, Parts, Emit
VARIABLES path, script, dev, arity, kinds, range, pos, state

vars == <<path, script, dev, arity, kinds, range, pos, state>>

ASSUME TablesReady
ASSUME RecTablesReady
ASSUME Everywhere => ChainsReady

Entry(pt) == pt[1]
Places == IF ~Whole THEN {<<n>> : n \in Nonterminals}
          ELSE IF ~Everywhere THEN {Tbl.paths[n] : n \in Range(Tbl.goals)}
          ELSE {ch \in AllChains : ChainHash(ch) % Parts = Part}
Derived(pt, sc) ==
  LET dn == TLCEval(IF OwnRule THEN OwnDerivation(pt, sc, TRUE) ELSE Along(pt, Start(1, 0, sc)))
  IN [ks |-> IF dn.c = <<>> THEN <<>> ELSE Yield(dn.c[1]), ar |-> dn.s.ar, lo |-> dn.s.lo, hi |-> dn.s.hi]

Load(pt, sc) ==
  LET d == TLCEval(Derived(pt, sc))
  IN kinds' = d.ks /\ arity' = d.ar /\ range' = <<d.lo, d.hi>>

Init == /\ path \in Places
        /\ script = <<>> /\ dev = 0
        /\ LET d == TLCEval(Derived(path, <<>>))
           IN kinds = d.ks /\ arity = d.ar /\ range = <<d.lo, d.hi>>
        /\ pos = 0
        /\ state = Start0(Entry(path))

Say(i, st) ==
  i + 1 >= range[1] /\ i <= range[2] + 1 /\ Emit =>
    PrintT("CASE " \o ToJson([entry |-> Entry(path), k |-> SubSeq(kinds, 1, i), rest |-> SubSeq(kinds, i + 1, Len(kinds)),
                              ok |-> SetToSeq(Viable(st)), done |-> Complete(st)]))

Choice ==
  /\ pos = 0 /\ dev < MaxDev
  /\ \E p \in (Len(script) + 1)..Len(arity) :
       \E c \in 1..(arity[p] - 1) :
         LET sc == [i \in 1..p |-> IF i <= Len(script) THEN script[i]
                                   ELSE IF i < p THEN 0 ELSE c]
         IN script' = sc /\ Load(path, sc)
  /\ dev' = dev + 1
  /\ UNCHANGED <<path, pos, state>>

Token ==
  /\ pos < Len(kinds)
  /\ state' = TLCEval(Read(state, kinds[pos + 1]))
  /\ pos' = pos + 1
  /\ Say(pos, state)
  /\ UNCHANGED <<path, script, dev, arity, kinds, range>>
Finish ==
  /\ pos = Len(kinds) /\ range[1] # 0
  /\ Say(pos, state)
  /\ range' = <<0, 0>>
  /\ UNCHANGED <<path, script, dev, arity, kinds, pos, state>>
Next == Choice \/ Token \/ Finish

\* every prefix of a derivation is viable, and the whole is complete
PrefixesViable == state # {} /\ (pos < Len(kinds) => kinds[pos + 1] \in Viable(state))
SentencesComplete == pos = Len(kinds) => Complete(state)
\* the viable kinds are those that can be read
ViableIsReadable == \A k \in Kinds : (k \in Viable(state)) <=> (Read(state, k) # {})
\* the automaton stays small
FewConfigurations == Cardinality(state) <= 40
=============================================================================
