------------------------------- MODULE MCRandom -------------------------------
(***************************************************************************)
(* Random documents.  Every job is one behaviour  todo -> done ; the       *)
(* document is checked against the properties of the specification and     *)
(* printed with the predicted output.                                      *)
(***************************************************************************)
EXTENDS Docs
CONSTANTS RunSeed, FirstJob, Jobs, Emit
VARIABLES job, phase, verdict

ASSUME TablesReady

Goals == Tbl.goals
Big6 == <<"StoredDefinition", "StoredDefinition", "Composition", "ElementList", "EquationSection",
          "AlgorithmSection">>

Make(j) ==
  LET r == Seed(RunSeed % 65537, j)
      r2 == Rnd(r)
      r3 == Rnd(r2)
      r4 == Rnd(r3)
      goal == IF Draw(r, 3) = 0 THEN Big6[1 + Draw(r2, 6)] ELSE Goals[1 + (j % Len(Goals))]
      dn == TLCEval(CASE j % 20 = 7 -> DeepDerivation(r3, 20 + Draw(r4, 160), Draw(r3, 2) * 40)
                      [] j % 400 = 137 -> LongDerivation(goal, r3, 1000 + Draw(r4, 3000), 150)
                      [] j % 20 = 17 -> LongDerivation(goal, r3, 150 + Draw(r4, 350), 40)
                      [] j % 5 \in {1, 3} -> RuleDerivation(Tbl.paths[goal], r3, 2 + Draw(r4, 24))
                      [] OTHER -> LongDerivation(goal, r3, 6 + Draw(r4, 70), 3 + Draw(r2, 5)))
      t == TreeOf(dn)
      ks == TLCEval(KindsOfTree(t))
      hs == TLCEval(Heights(ks, r4))
      style == (j \div 7) % 9
      gs == IF style = 5 /\ ks # <<>>
            THEN EditedGaps(Document(t, ks, PlainGaps(ks), hs), r4)
            ELSE IF style > 5 THEN SparseGaps(ks, r4)
            ELSE RandomGaps(ks, r4, style)
  IN TLCEval(Document(t, ks, gs, hs))

Init == job \in FirstJob..(FirstJob + Jobs - 1) /\ phase = "todo" /\ verdict = NoVerdict
Next == /\ phase = "todo"
        /\ phase' = "done"
        /\ LET d == Make(job)
               v == TLCEval(Verdict(d))
           IN /\ verdict' = [v EXCEPT !.out = <<>>]
              /\ Emit => PrintT("CASE " \o ToJson(Case(job, d, v.out, job % 5 = 0)))
        /\ UNCHANGED job

IndentationBalanced == verdict.balanced
OneSeparatorPerGap == verdict.separator
CommentsSurvive == verdict.comments
OutputTidy == verdict.tidy
TokensApart == verdict.gluing
LayoutIdempotent == verdict.idempotent
=============================================================================
