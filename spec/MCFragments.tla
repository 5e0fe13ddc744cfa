------------------------------ MODULE MCFragments ------------------------------
(***************************************************************************)
(* mofmt as a library: every nonterminal can be the start symbol.          *)
(*   job <= Small   a nonterminal and a script of at most one choice,      *)
(*                  laid out plainly and with line ends                    *)
(*   other jobs     random fragments                                       *)
(* Every job is one behaviour  todo -> done.                               *)
(***************************************************************************)
EXTENDS Docs
CONSTANTS RunSeed, Jobs, Emit
VARIABLES job, phase, verdict

ASSUME TablesReady

\* every nonterminal, also the one that no file contains
Entries == SetToSeq(Nonterminals)
\* scripts: no choice, or one choice at one of the first places
Scripts == <<<<>>>> \o SetToSeq({[i \in 1..p |-> IF i < p THEN 0 ELSE c] : p \in 1..6, c \in 1..15})
Breaks == 4
Small == Len(Entries) * Len(Scripts)

Arity(dn, sc) == Len(sc) <= Len(dn.s.ar) /\ \A i \in 1..Len(sc) : sc[i] < dn.s.ar[i]

\* a line end at every boundary, every other one, ...
Gaps(kinds, n) ==
  [i \in 1..(Len(kinds) + 1) |->
     IF i = 1 \/ i > Len(kinds) THEN <<>> ELSE IF (i + n) % (n + 1) = 0 /\ n # Breaks THEN <<"n">> ELSE <<"s">>]

Fragment(entry, start) == TLCEval(Along(<<entry>>, start))

SmallDocs(j) ==
  LET entry == Entries[1 + (j % Len(Entries))]
      sc == Scripts[1 + (j \div Len(Entries))]
      \* the arities first: a choice that is not there is no choice
      try == Fragment(entry, Start(1, 0, [i \in 1..Len(sc) |-> 0]))
  IN IF ~(Len(sc) <= Len(try.s.ar) /\ \A i \in 1..Len(sc) : sc[i] < try.s.ar[i]) THEN <<>>
     ELSE LET t == TreeOf(Fragment(entry, Start(1, 0, sc)))
              ks == TLCEval(KindsOfTree(t))
          IN IF t = <<>> THEN <<>>
             ELSE [n \in 1..(Breaks + 1) |-> Document(t, ks, Gaps(ks, n - 1), Zeros(ks))]
RandomDoc(j) ==
  LET r == Seed((RunSeed + 77) % 65537, j)
      r2 == Rnd(r)
      r3 == Rnd(r2)
      entry == Entries[1 + (j % Len(Entries))]
      t == TreeOf(Fragment(entry, [Start(r2, 3 + Draw(r3, 50), <<>>) EXCEPT !.mx = 3 + Draw(r2, 5)]))
      ks == TLCEval(KindsOfTree(t))
      hs == TLCEval(Heights(ks, r3))
  IN IF t = <<>> THEN <<>>
     ELSE <<Document(t, ks, IF j % 6 = 5 THEN EditedGaps(Document(t, ks, PlainGaps(ks), hs), r3)
                            ELSE RandomGaps(ks, r3, j % 6), hs)>>

\* edited fragments end like the ones they were made from
Docs0(j) == IF j < Small THEN SmallDocs(j) ELSE RandomDoc(j)
Both(a, b) == [x \in DOMAIN NoVerdict |-> IF x = "out" THEN <<>> ELSE a[x] /\ b[x]]

Init == job \in 0..(Small + Jobs - 1) /\ phase = "todo" /\ verdict = NoVerdict
Next == /\ phase = "todo"
        /\ phase' = "done"
        /\ LET docs == TLCEval(Docs0(job))
               one(acc, n) ==
                 LET d == docs[n]
                     v == TLCEval(Verdict(d))
                     said == Emit => PrintT("CASE " \o ToJson(
                       Case("fragment" \o ToString(job) \o "#" \o ToString(n), d, v.out, TRUE)
                       @@ [entry |-> d.t.n]))
                 IN IF said THEN Both(acc, v) ELSE acc
           IN verdict' = FoldLeft(one, NoVerdict, [n \in 1..Len(docs) |-> n])
        /\ UNCHANGED job

IndentationBalanced == verdict.balanced
OneSeparatorPerGap == verdict.separator
CommentsSurvive == verdict.comments
OutputTidy == verdict.tidy
TokensApart == verdict.gluing
LayoutIdempotent == verdict.idempotent
=============================================================================
