--------------------------------- MODULE Lexer ---------------------------------
(***************************************************************************)
(* The scanner, as a machine that reads one character at a time (Modelica  *)
(* Specification, chapter 2 and appendix A.1; the notes below say where    *)
(* mofmt is more liberal).                                                 *)
(*                                                                         *)
(* A character is a string of length one, except for those that have names:*)
(*   NL CR TAB FF VT  line feed, carriage return, tab, form feed, vertical *)
(*   DQ SQ BS         the quotes and the backslash                         *)
(*   u2 u3 u4         characters that take 2, 3, 4 bytes in UTF-8          *)
(*                                                                         *)
(* State: m mode, a number of the first character of the pending lexeme,   *)
(* n characters read, w pending word, t tokens and c comments so far (each *)
(* <<kind, first, last>>), bad the first character of the first lexeme     *)
(* that is wrong (0: none).                                                *)
(*                                                                         *)
(* More liberal than the language: any character may follow a backslash in *)
(* a string or quoted identifier, a number may end after the dot or the    *)
(* exponent letter or sign, and a form feed is a blank.                    *)
(***************************************************************************)
EXTENDS Lexis, Naturals, FiniteSets, SequencesExt

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r",
  "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R",
  "S", "T", "U", "V", "W", "X", "Y", "Z"}
Nondigit == Lower \cup Upper \cup {"_"}
Blank == {" ", "NL", "CR", "TAB", "FF"}
\* what a quoted identifier may contain besides letters, digits and escapes
QChars == {"!", "#", "$", "%", "&", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", ">", "=",
  "?", "@", "[", "]", "^", "{", "}", "|", "~", " ", "DQ"}

Single == [x \in {";", ",", "+", "-", "*", "^", "(", ")", "{", "}", "[", "]"} |->
             CHOOSE k \in DOMAIN Punctuation : Punctuation[k] = x]
\* symbols that may be continued: what by, to what
Longer == [colon |-> ("=" :> "Assign"), equal |-> ("=" :> "Eq"),
           les |-> (">" :> "Neq" @@ "=" :> "Leq"), gre |-> ("=" :> "Geq"),
           dot |-> ("+" :> "DotPlus" @@ "-" :> "DotMinus" @@ "*" :> "DotStar" @@
                    "/" :> "DotSlash" @@ "^" :> "DotFlex")]
Short == [colon |-> "Colon", equal |-> "Equal", les |-> "Les", gre |-> "Gre", dot |-> "Dot",
          slash |-> "Slash", int |-> "UInt", frac |-> "UReal", expo |-> "UReal", sign |-> "UReal",
          power |-> "UReal"]
Opening == (":" :> "colon" @@ "=" :> "equal" @@ "<" :> "les" @@ ">" :> "gre" @@ "." :> "dot" @@
            "/" :> "slash" @@ "DQ" :> "string" @@ "SQ" :> "quoted")

KeywordKinds == [w \in {Keywords[k] : k \in DOMAIN Keywords} |->
                   CHOOSE k \in DOMAIN Keywords : Keywords[k] = w]
WordKind(w) == IF w \in {"true", "false"} THEN "Bool"
               ELSE IF w \in DOMAIN KeywordKinds THEN KeywordKinds[w] ELSE "Identifier"

Scanner0 == [m |-> "start", a |-> 1, n |-> 0, w |-> "", t |-> <<>>, c |-> <<>>, bad |-> 0]

\* the pending lexeme ends with character z
Emit1(s, kind, z) ==
  IF kind \in {"LineComment", "BlockComment"}
  THEN [s EXCEPT !.c = Append(@, <<kind, s.a, z>>), !.m = "start", !.w = ""]
  ELSE [s EXCEPT !.t = Append(@, <<kind, s.a, z>>), !.m = "start", !.w = ""]
Wrong(s) == [s EXCEPT !.bad = s.a, !.m = "wrong"]
To(s, mode) == [s EXCEPT !.m = mode]

\* character number i begins a lexeme (or is a blank)
Begin(s0, c, i) ==
  LET s == [s0 EXCEPT !.a = i] IN
  CASE c \in Blank -> s
    [] c \in DOMAIN Single -> Emit1(s, Single[c], i)
    [] c \in DOMAIN Opening -> To(s, Opening[c])
    [] c \in Digits -> To(s, "int")
    [] c \in Nondigit -> [To(s, "word") EXCEPT !.w = c]
    [] OTHER -> Wrong(s)

Feed(s0, c) ==
  LET i == s0.n + 1
      s == [s0 EXCEPT !.n = i]
      cut(kind) == Begin(Emit1(s, kind, i - 1), c, i)
  IN
  CASE s.m = "start" -> Begin(s, c, i)
    [] s.m \in DOMAIN Longer ->
         IF c \in DOMAIN Longer[s.m] THEN Emit1(s, Longer[s.m][c], i) ELSE cut(Short[s.m])
    [] s.m = "slash" ->
         IF c = "/" THEN To(s, "line") ELSE IF c = "*" THEN To(s, "block") ELSE cut("Slash")
    [] s.m = "line" -> IF c \in {"CR", "NL"} THEN cut("LineComment") ELSE s
    [] s.m = "block" -> IF c = "*" THEN To(s, "star") ELSE s
    [] s.m = "star" ->
         IF c = "/" THEN Emit1(s, "BlockComment", i) ELSE IF c = "*" THEN s ELSE To(s, "block")
    [] s.m = "string" ->
         IF c = "BS" THEN To(s, "stringesc") ELSE IF c = "DQ" THEN Emit1(s, "String", i) ELSE s
    [] s.m = "stringesc" -> To(s, "string")
    [] s.m = "quoted" ->
         IF c = "BS" THEN To(s, "quotedesc")
         ELSE IF c = "SQ" THEN Emit1(s, "Identifier", i)
         ELSE IF c \in Digits \cup Nondigit \cup QChars THEN s ELSE Wrong(s)
    [] s.m = "quotedesc" -> To(s, "quoted")
    [] s.m = "int" ->
         IF c \in Digits THEN s ELSE IF c = "." THEN To(s, "frac")
         ELSE IF c \in {"e", "E"} THEN To(s, "expo") ELSE cut("UInt")
    [] s.m = "frac" ->
         IF c \in Digits THEN s ELSE IF c \in {"e", "E"} THEN To(s, "expo") ELSE cut("UReal")
    [] s.m = "expo" ->
         IF c \in {"+", "-"} THEN To(s, "power") ELSE IF c \in Digits THEN To(s, "power")
         ELSE cut("UReal")
    [] s.m = "power" -> IF c \in Digits THEN s ELSE cut("UReal")
    [] s.m = "word" ->
         IF c \in Digits \cup Nondigit THEN [s EXCEPT !.w = @ \o c] ELSE cut(WordKind(s.w))
    [] s.m = "wrong" -> s

\* the end of the text
Ended(s) ==
  CASE s.m \in {"start", "wrong"} -> s
    [] s.m \in DOMAIN Short -> Emit1(s, Short[s.m], s.n)
    [] s.m = "word" -> Emit1(s, WordKind(s.w), s.n)
    [] s.m = "line" -> Emit1(s, "LineComment", s.n)
    [] OTHER -> Wrong(s)

Scan(chars) == Ended(FoldLeft(Feed, Scanner0, chars))

---------------------------------------------------------------------------
(* Properties of the scanner, on the text cs with result s = Scan(cs)      *)

Lexemes(s) == Range(s.t) \cup Range(s.c)

\* lexemes do not overlap, and what is left out is blank
Tiling(cs, s) ==
  LET last == IF s.bad = 0 THEN Len(cs) ELSE s.bad - 1
      cover(i) == {x \in Lexemes(s) : x[2] <= i /\ i <= x[3]}
  IN \A i \in 1..last : IF cs[i] \in Blank THEN Cardinality(cover(i)) <= 1
                        ELSE Cardinality(cover(i)) = 1
InOrder(seq) == \A i \in 1..(Len(seq) - 1) : seq[i][3] < seq[i + 1][2]
Ordered(s) == InOrder(s.t) /\ InOrder(s.c) /\ \A x \in Lexemes(s) : x[2] <= x[3] /\ x[3] <= s.n

\* every lexeme scanned on its own is that same lexeme
Stable(cs, s) ==
  \A x \in Lexemes(s) :
    LET r == Scan(SubSeq(cs, x[2], x[3]))
    IN r.bad = 0 /\ r.t \o r.c = <<<<x[1], 1, x[3] - x[2] + 1>>>>

\* maximal munch: no lexeme but a closed one could have been longer
Closed == {"String", "BlockComment"}
Munch(cs, s) ==
  \A x \in Lexemes(s) :
    (x[3] < Len(cs) /\ x[1] \notin Closed /\ ~(x[1] = "LineComment")) =>
      LET r == Scan(SubSeq(cs, x[2], x[3] + 1))
      IN ~(r.bad = 0 /\ Len(r.t \o r.c) = 1 /\ (r.t \o r.c)[1][3] = x[3] - x[2] + 2)
=============================================================================
