------------------------------- MODULE MCMutants -------------------------------
(***************************************************************************)
(* Random documents with one to three changes of their tokens, and what    *)
(* the recogniser says about the result.  A behaviour derives a document,  *)
(* changes it step by step and then reads it token by token; the verdict   *)
(* is bad: 0 for a sentence, otherwise the first token that cannot be      *)
(* there (one past the last if the text ends too early).                   *)
(* Whole: the documents are files, otherwise fragments.                    *)
(***************************************************************************)
EXTENDS Docs, Recogniser
CONSTANTS RunSeed, FirstJob, Jobs, Whole, Emit
VARIABLES job, phase, left, rnd, kinds, pos, state, bad

vars == <<job, phase, left, rnd, kinds, pos, state, bad>>

ASSUME TablesReady
ASSUME RecTablesReady

AllKinds == SetToSeq(Kinds)

Goals == IF Whole THEN Tbl.goals ELSE SetToSeq(Nonterminals)
Goal(j) == Goals[1 + (j % Len(Goals))]
Entry(j) == IF Whole THEN "StoredDefinition" ELSE Goal(j)

Source(j) ==
  LET r == Seed((RunSeed + 31) % 65537, j)
      r2 == Rnd(r)
      goal == Goal(j)
      budget == 4 + Draw(Rnd(r2), 30)
      dn == TLCEval(IF Whole THEN RandomDerivation(goal, r2, budget) ELSE Along(<<goal>>, Start(r2, budget, <<>>)))
  IN [ks |-> TLCEval(KindsOfTree(TreeOf(dn))),
      r |-> Rnd(Rnd(r2))]

Init == /\ job \in FirstJob..(FirstJob + Jobs - 1)
        /\ phase = "derive"
        /\ left = 0 /\ rnd = 0 /\ kinds = <<>> /\ pos = 0 /\ state = {} /\ bad = 0

DeriveDoc ==
  /\ phase = "derive"
  /\ LET src == TLCEval(Source(job))
     IN kinds' = src.ks /\ rnd' = src.r /\ left' = 1 + Draw(src.r, 3)
  /\ phase' = "change"
  /\ UNCHANGED <<job, pos, state, bad>>

(* One change at a random place. *)
Changed(ks, r) ==
  LET r2 == Rnd(r)
      r3 == Rnd(r2)
      n == Len(ks)
      i == IF n = 0 THEN 1 ELSE 1 + Draw(r2, n)
      other == IF n = 0 \/ Draw(r3, 2) = 0 THEN AllKinds[1 + Draw(Rnd(r3), Len(AllKinds))]
               ELSE ks[1 + Draw(Rnd(r3), n)]
      how == Draw(r, 7)
  IN IF n = 0 THEN <<other>>
     ELSE CASE how = 0 -> SubSeq(ks, 1, i - 1) \o SubSeq(ks, i + 1, n)
            [] how = 1 -> SubSeq(ks, 1, i - 1) \o <<other>> \o SubSeq(ks, i, n)
            [] how = 2 -> SubSeq(ks, 1, i - 1) \o <<other>> \o SubSeq(ks, i + 1, n)
            [] how = 3 -> SubSeq(ks, 1, i) \o SubSeq(ks, i, n)
            [] how = 4 -> SubSeq(ks, 1, i)
            [] how = 5 -> IF i < n THEN SubSeq(ks, 1, i - 1) \o <<ks[i + 1], ks[i]>> \o SubSeq(ks, i + 2, n)
                          ELSE ks \o <<other>>
            [] OTHER -> SubSeq(ks, i, n)

Change ==
  /\ phase = "change" /\ left > 0
  /\ kinds' = Changed(kinds, rnd)
  /\ rnd' = Rnd(Rnd(Rnd(Rnd(rnd))))
  /\ left' = left - 1
  /\ UNCHANGED <<job, phase, pos, state, bad>>
Begin ==
  /\ phase = "change" /\ left = 0
  /\ phase' = "read" /\ state' = Start0(Entry(job))
  /\ UNCHANGED <<job, left, rnd, kinds, pos, bad>>
ReadToken ==
  /\ phase = "read" /\ pos < Len(kinds) /\ bad = 0
  /\ LET s == TLCEval(Read(state, kinds[pos + 1]))
     IN IF s = {} THEN bad' = pos + 1 /\ UNCHANGED <<state, pos>>
        ELSE state' = s /\ pos' = pos + 1 /\ UNCHANGED bad
  /\ UNCHANGED <<job, phase, left, rnd, kinds>>
Judge ==
  /\ phase = "read" /\ (pos = Len(kinds) \/ bad # 0)
  /\ LET b == IF bad # 0 THEN bad ELSE IF Complete(state) THEN 0 ELSE Len(kinds) + 1
         gs == RandomGaps(kinds, rnd, IF job % 2 = 0 THEN 1 ELSE 2)
     IN /\ bad' = b
        /\ Emit => PrintT("CASE " \o ToJson([id |-> "mutant" \o ToString(job), entry |-> Entry(job), k |-> kinds,
                              h |-> Heights(kinds, Rnd(Rnd(rnd))), g |-> [i \in 1..Len(gs) |-> Text(gs[i])],
                              bad |-> b]))
  /\ phase' = "done"
  /\ UNCHANGED <<job, left, rnd, kinds, pos, state>>
Next == DeriveDoc \/ Change \/ Begin \/ ReadToken \/ Judge

\* what was read before a wrong token is a prefix of some sentence
ReadIsViable == phase = "read" => state # {}
\* the verdict is that of the recogniser as a function
SameVerdict == phase = "done" /\ job % 16 = 0 => bad = FirstWrong(Entry(job), kinds)
=============================================================================
