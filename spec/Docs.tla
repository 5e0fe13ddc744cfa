--------------------------------- MODULE Docs ---------------------------------
(***************************************************************************)
(* Documents to test with: derivations of the grammar combined with gaps.  *)
(***************************************************************************)
EXTENDS Layout, Json

(* The gap shapes.  A "B" may stand alone as a separator; an "L" is always *)
(* followed by a line end (at the end of a file it need not be).           *)
Shapes == <<
  <<>>, <<"s">>, <<"n">>, <<"n", "n">>, <<"n", "n", "n">>,
  <<"s", "L", "n">>, <<"n", "L", "n">>, <<"s", "B", "s">>, <<"s", "B", "n">>, <<"n", "B", "s">>,
  <<"n", "B", "n">>, <<"n", "n", "L", "n", "n">>, <<"s", "M", "s">>, <<"s", "M", "n">>,
  <<"n", "M", "n">>, <<"s", "M", "n", "n">>, <<"s", "L", "n", "n">>, <<"n", "L", "n", "L", "n">>,
  <<"n", "L", "n", "n", "B", "n">>, <<"s", "L", "n", "n", "L", "n">>, <<"s", "B", "s", "B", "n">>,
  <<"s", "B", "s", "L", "n", "L", "n">>, <<"B">>, <<"n", "n", "B", "B", "n", "n", "n">>,
  <<"s", "M", "s", "B", "s">>, <<"s", "M", "s", "L", "n", "n", "M", "n">>, <<"n", "n", "n", "M", "s">>,
  <<"s", "W", "n">>, <<"n", "W", "n", "n">>, <<"s", "W", "s">>, <<"n", "n", "W", "s", "L", "n">>,
  <<"s", "L", "n", "W", "n", "B", "n">>,
  <<"n", "L", "n", "M", "n">>, <<"n", "B", "n", "n", "W", "n", "n">>, <<"s", "M", "n", "M", "n", "n", "L", "n">>
>>
NShapes == Len(Shapes)
FinalShapes == <<<<"s", "L">>, <<"n", "L">>, <<"n", "n", "L">>, <<"s", "B">>, <<"n", "M">>, <<"n", "W">>, <<"s", "W">>>>

(* A shape put together at random: one to four comments (rarely more),     *)
(* whatever is between them, and what is after the last one.               *)
AnyShape(r0) ==
  LET many == IF Draw(Rnd(r0), 12) = 0 THEN 5 + Draw(Rnd(Rnd(r0)), 12) ELSE 1 + Draw(r0, 4)
      between(r, after) ==
        CASE after = "L" -> <<<<"n">>, <<"n", "n">>, <<"n">>>>[1 + Draw(r, 3)]
          [] after = "" -> <<<<"s">>, <<"n">>, <<"n", "n">>>>[1 + Draw(r, 3)]
          [] OTHER -> <<<<"s">>, <<"n">>, <<"n", "n">>, <<"n">>, <<>>>>[1 + Draw(r, 5)]
      step(acc, i) ==
        LET r1 == Rnd(acc.r)
            piece == <<"L", "B", "M", "W">>[1 + Draw(Rnd(r1), 4)]
        IN [r |-> Rnd(Rnd(r1)), g |-> acc.g \o between(r1, acc.x) \o <<piece>>, x |-> piece]
      all == FoldLeft(step, [r |-> Rnd(r0), g |-> <<>>, x |-> ""], [i \in 1..many |-> i])
  IN all.g \o between(all.r, all.x)

\* may the shape stand between tokens of these kinds
Clear(g, k1) == (g # <<>> /\ g[1] \in {"B", "M", "W", "L"}) => k1 \notin {"Slash", "Dot"}
Fits(g, k1, k2) ==
  /\ g = <<>> => Safe(k1, k2)
  /\ Clear(g, k1)

\* the gap at boundary i (1..N+1) if shape is wanted there
GapAt(kinds, i, shape) ==
  IF i = 1 \/ (IF i > Len(kinds) THEN Clear(shape, kinds[i - 1]) ELSE Fits(shape, kinds[i - 1], kinds[i]))
  THEN shape ELSE <<"s">>

(* Plain gaps: one blank at every boundary. *)
PlainGaps(kinds) ==
  [i \in 1..(Len(kinds) + 1) |-> IF i = 1 THEN <<>> ELSE IF i > Len(kinds) THEN <<"n">> ELSE <<"s">>]

(* Random gaps in one of several styles.  The generator is threaded.       *)
RandomGaps(kinds, r0, style) ==
  LET step(acc, i) ==
        LET r1 == Rnd(acc.r)
            r2 == Rnd(r1)
            p == Draw(r1, 100)
            any == IF Draw(Fork(r2, i), 3) = 0 THEN AnyShape(Fork(r2, i + 7)) ELSE Shapes[1 + Draw(r2, NShapes)]
            shape ==
              CASE style = 0 -> IF p < 88 THEN <<"s">> ELSE any
                [] style = 1 -> IF p < 55 THEN <<"s">> ELSE IF p < 85 THEN <<"n">>
                                ELSE IF p < 93 THEN <<"n", "n">> ELSE any
                [] style = 2 -> IF p < 45 THEN <<"s">> ELSE any
                [] style = 3 -> IF p < 75 THEN <<>> ELSE IF p < 90 THEN <<"s">> ELSE any
                [] OTHER -> IF p < 70 THEN <<"s">> ELSE IF p < 82 THEN <<"n">> ELSE any
            shape1 == IF i = 1 THEN (IF p < 70 THEN <<>> ELSE any)
                      ELSE IF i > Len(kinds)
                      THEN (IF p < 60 THEN <<"n">> ELSE IF p < 80 THEN any
                            ELSE FinalShapes[1 + Draw(r2, Len(FinalShapes))])
                      ELSE shape
        IN [r |-> r2, g |-> Append(acc.g, GapAt(kinds, i, shape1))]
  IN FoldLeft(step, [r |-> r0, g |-> <<>>], [i \in 1..(Len(kinds) + 1) |-> i]).g

\* all on one line, but for a few gaps
SparseGaps(kinds, r0) ==
  LET n == Len(kinds)
      step(acc, x) ==
        LET r1 == Rnd(acc.r)
            r2 == Rnd(r1)
            i == 1 + Draw(r1, n + 1)
            q == Draw(Fork(r2, 3), 4)
            shape == IF q = 0 THEN AnyShape(Fork(r2, 7)) ELSE IF q = 1 THEN Shapes[1 + Draw(r2, NShapes)] ELSE <<"n">>
        IN [r |-> r2, g |-> [acc.g EXCEPT ![i] = GapAt(kinds, i, shape)]]
  IN FoldLeft(step, [r |-> r0, g |-> PlainGaps(kinds)], [x \in 1..Draw(Rnd(r0), 4) |-> x]).g

\* already formatted, then edited in a few places
EditedGaps(d0, r0) ==
  LET out == Layout(d0)
      step(acc, i) ==
        LET r1 == Rnd(acc.r)
            r2 == Rnd(r1)
            g == IF Draw(r1, 100) < 92 /\ ~(i > Len(d0.k)) THEN out[i].p
                 ELSE IF i > Len(d0.k) THEN <<"n">>
                 ELSE GapAt(d0.k, i, IF Draw(Fork(r2, i), 2) = 0 THEN AnyShape(Fork(r2, i + 7))
                                     ELSE Shapes[1 + Draw(r2, NShapes)])
        IN [r |-> r2, g |-> Append(acc.g, g)]
  IN FoldLeft(step, [r |-> r0, g |-> <<>>], [i \in 1..Len(out) |-> i]).g

Zeros(kinds) == [i \in 1..Len(kinds) |-> 0]
\* some strings span lines
Heights(kinds, r) ==
  [i \in 1..Len(kinds) |->
     IF kinds[i] = "String" /\ Draw(Fork(r, i), 6) = 0 THEN 1 + Draw(Rnd(Fork(r, i)), 2) ELSE 0]

TreeOf(dn) == IF dn.c = <<>> THEN <<>> ELSE dn.c[1]
KindsOfTree(t) == IF t = <<>> THEN <<>> ELSE Yield(t)

---------------------------------------------------------------------------
(* Texts for the test driver                                               *)

Text(pieces) == FoldLeft(LAMBDA acc, p : acc \o p, "", pieces)

\* a tree as text: tokens are dots, nodes (Name ...)
RECURSIVE TreeText(_)
TreeText(x) ==
  IF x.n = "" THEN "."
  ELSE FoldLeft(LAMBDA acc, y : acc \o TreeText(y), "(" \o x.n \o " ", x.c) \o ")"

OutText(out) == [i \in 1..Len(out) |-> <<Text(out[i].p), out[i].ind, out[i].y, out[i].m>>]

\* one document with the predicted result
Case(name, d, out, withtree) ==
  [id |-> name, k |-> d.k, h |-> d.h, g |-> [i \in 1..Len(d.g) |-> Text(d.g[i])],
   out |-> OutText(out), tree |-> IF withtree /\ d.t # <<>> THEN TreeText(d.t) ELSE ""]

(* What the specification says about itself on one document.              *)
Verdict(d) ==
  LET ops == TLCEval(Program(d))
      m == TLCEval(Run(d, ops))
  IN [balanced |-> Balanced(d, m), separator |-> OneSeparator(ops),
      comments |-> CommentsKept(d, m.out), tidy |-> Tidy(d, m.out), gluing |-> NoGluing(d, m.out),
      idempotent |-> Idempotent(d, m.out), out |-> m.out]
NoVerdict == [balanced |-> TRUE, separator |-> TRUE, comments |-> TRUE, tidy |-> TRUE,
              gluing |-> TRUE, idempotent |-> TRUE, out |-> <<>>]
=============================================================================
