-------------------------------- MODULE MCLexer --------------------------------
(***************************************************************************)
(* The scanner on every text over an alphabet, up to a length, and on      *)
(* pseudo-random texts made of longer pieces, and on every character in    *)
(* every context.  The state is the text read so far and the scanner's     *)
(* state; a transition reads one character (or piece; the transition       *)
(* Context reads a whole text).  Every state is printed with what the      *)
(* scanner would say if the text ended there.                              *)
(***************************************************************************)
EXTENDS Lexer, Rand, Json
CONSTANTS Alphabet, MaxLen, RunSeed, Jobs, JobLen, Emit
VARIABLES job, text, scanner, rnd


\* pieces of the random texts: those that open, close or nearly so
Pieces == <<
  <<"/", "*">>, <<"*", "/">>, <<"/", "/">>, <<"DQ">>, <<"SQ">>, <<"BS", "DQ">>, <<"BS", "SQ">>,
  <<"BS", "BS">>, <<"NL">>, <<"CR", "NL">>, <<"CR">>, <<"TAB">>, <<"FF">>, <<"VT">>, <<" ">>,
  <<"*">>, <<"*", "*">>, <<"/">>, <<".">>, <<"1">>, <<"2", "3">>, <<"e">>, <<"E", "+">>,
  <<"e", "-">>, <<"+">>, <<"-">>, <<"^">>, <<"=">>, <<":">>, <<"<">>, <<">">>, <<"(">>, <<";">>,
  <<",">>, <<"_">>, <<"x">>, <<"e", "n", "d">>, <<"i", "f">>, <<"t", "r", "u", "e">>,
  <<"e", "l", "s", "e">>, <<"w", "h", "e", "n">>, <<"i", "n">>, <<"d", "e", "r">>,
  <<"u2">>, <<"u3">>, <<"u4">>, <<"#">>, <<"!">>, <<"DQ", "DQ">>, <<"SQ", "SQ">>, <<"/", "*", "/">>,
  <<"*", "*", "/">>, <<"f", "a", "l", "s", "e">>, <<"Z", "9">>, <<"[">>, <<"]">>, <<"{">>, <<"}">>,
  <<")">>, <<"*">>, <<"/", "*", "*", "/">>, <<" ", " ">>, <<"NL", "NL">>, <<"0">>, <<".", "*">> >>

\* within a random text, strings and comments are closed now and then
Closer(m) ==
  CASE m \in {"string"} -> <<"DQ">>
    [] m = "stringesc" -> <<"n", "DQ">>
    [] m = "quoted" -> <<"SQ">>
    [] m = "quotedesc" -> <<"n", "SQ">>
    [] m = "line" -> <<"NL">>
    [] m \in {"block", "star"} -> <<"*", "/">>
    [] OTHER -> <<>>

\* every character of one byte and some others, by name if they have one
Others == {"NUL", "SOH", "BEL", "ESC", "DEL", "NBSP", "NEL", "LS", "BOM", "u2", "u3", "u4", "`", "DQ", "SQ", "BS",
           "NL", "CR", "TAB", "FF", "VT"}
Everything == Digits \cup Lower \cup Upper \cup {"_"} \cup Blank \cup QChars \cup Others
\* what comes before and after it
Before == {<<>>, <<"SQ">>, <<"SQ", "a">>, <<"SQ", "BS">>, <<"DQ">>, <<"DQ", "BS">>, <<"DQ", "BS", "BS">>,
           <<"/", "/">>, <<"/", "*">>, <<"/", "*", "*">>, <<"a">>, <<"_">>, <<"1">>, <<"1", ".">>, <<"1", "e">>,
           <<"1", "e", "-">>, <<"1", "E", "5">>, <<".">>, <<":">>, <<"=">>, <<"<">>, <<">">>, <<"/">>, <<"+">>,
           <<")">>, <<"i">>, <<"e", "n">>}
After == {<<>>, <<"a">>, <<"SQ">>, <<"DQ">>, <<"NL", "a">>, <<"*", "/", "a">>, <<"/", "a">>, <<"1">>}

Say(cs, sc) ==
  Emit =>
    LET r == Ended(sc)
    IN PrintT("CASE " \o ToJson([x |-> cs, t |-> r.t, c |-> r.c, bad |-> r.bad]))

Init == /\ job \in 0..Jobs
        /\ text = <<>>
        /\ scanner = Scanner0
        /\ rnd = Seed(RunSeed % 65537, job)

Exhaustive ==
  /\ job = 0 /\ Len(text) < MaxLen
  /\ \E c \in Alphabet :
       /\ text' = Append(text, c)
       /\ scanner' = Feed(scanner, c)
  /\ Say(text', scanner')
  /\ UNCHANGED <<job, rnd>>
\* in a random text a wrong lexeme is rarely wanted, and early ends neither
Random ==
  /\ job > 0 /\ Len(text) < JobLen
  /\ LET r1 == Rnd(rnd)
         r2 == Rnd(r1)
         p == IF Draw(r1, 4) = 0 /\ Closer(scanner.m) # <<>> THEN Closer(scanner.m)
              ELSE Pieces[1 + Draw(r2, Len(Pieces))]
         s == FoldLeft(Feed, scanner, p)
         q == IF s.bad # 0 /\ Draw(Rnd(r2), 10) # 0 THEN <<" ">> ELSE p
     IN /\ text' = text \o q
        /\ scanner' = FoldLeft(Feed, scanner, q)
        /\ rnd' = Rnd(Rnd(r2))
  /\ (Len(text') >= JobLen => Say(text', scanner'))
  /\ UNCHANGED job
Context ==
  /\ job = 0 /\ text = <<>>
  /\ \E c \in Everything, b \in Before, a \in After :
       /\ text' = b \o <<c>> \o a
       /\ scanner' = FoldLeft(Feed, Scanner0, text')
  /\ Say(text', scanner')
  /\ job' = -1
  /\ UNCHANGED rnd
Next == Exhaustive \/ Context \/ Random

Final == Ended(scanner)
\* the long texts are judged at their ends
Due == job <= 0 \/ Len(text) >= JobLen
LexemesTile == Due => Tiling(text, Final) /\ Ordered(Final)
LexemesStable == Due => Stable(text, Final)
LongestMatch == Due => Munch(text, Final)
CommentsNeverTokens == \A i \in 1..Len(scanner.t) : scanner.t[i][1] \notin {"LineComment", "BlockComment"}
=============================================================================
