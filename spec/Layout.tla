-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* What mofmt prints.  The input is a document: a parse tree and, for      *)
(* every boundary between two tokens, the abstract "gap" of the source.    *)
(*                                                                         *)
(*   d.t   parse tree (see Derive), <<>> for a file without tokens         *)
(*   d.k   kinds of the tokens 1..N                                        *)
(*   d.g   gaps 1..N+1: d.g[i] is what precedes token i, d.g[N+1] what     *)
(*         follows the last one.  A gap is a sequence of pieces:           *)
(*           "s" blanks   "n" line end   "L" line comment                  *)
(*           "B" block comment on one line  "M" block comment on two lines *)
(*           "W" block comment on four lines                               *)
(*   d.h   number of line ends inside each token (strings only)            *)
(*   d.s, d.e  (derived) line where each token starts / ends               *)
(*                                                                         *)
(* The formatter is specified in two layers, as in the code:               *)
(*   Program(d)   the syntax-directed part: a sequence of operations       *)
(*                  T(i) print token i      I, D  indent, dedent           *)
(*                  S    one space          N     nothing                  *)
(*                  B(m) line break; m says whether a blank line is        *)
(*                       Required, Legal (kept) or Illegal here            *)
(*                  E    end of file                                       *)
(*   Step(d,m,op) the printing machine: indentation level and output gaps. *)
(* Every S, N and B carries y, the reason that decides it: "line" (line    *)
(* structure that does not depend on the source), "list" (wrapping of a    *)
(* list), "expr" (wrapping of an expression), "sp" (horizontal spacing).   *)
(***************************************************************************)
EXTENDS Derive

IsPiece(p) == p \in {"L", "B", "M", "W"}
HasComment(g) == \E i \in 1..Len(g) : IsPiece(g[i])
\* line ends in a piece
Height(p) == IF p \in {"n", "M"} THEN 1 ELSE IF p = "W" THEN 3 ELSE 0
NewLines(g) == FoldLeft(LAMBDA n, p : n + Height(p), 0, g)

(* Lines of the tokens: [s |-> <<..>>, e |-> <<..>>] *)
TokenLines(gaps, heights) ==
  LET step(acc, i) ==
        LET s == acc.l + NewLines(gaps[i])
            e == s + heights[i]
        IN [s |-> Append(acc.s, s), e |-> Append(acc.e, e), l |-> e]
      r == FoldLeft(step, [s |-> <<>>, e |-> <<>>, l |-> 1], [i \in 1..Len(heights) |-> i])
  IN [s |-> r.s, e |-> r.e]

Document(tree, kinds, gaps, heights) ==
  LET ln == TLCEval(TokenLines(gaps, heights))
  IN [t |-> tree, k |-> kinds, g |-> gaps, h |-> heights, s |-> ln.s, e |-> ln.e]

---------------------------------------------------------------------------
(* Facts about nodes of a document                                         *)

Multi(d, x) == d.s[x.a] < d.e[x.z]
IsTok(c, k) == c.n = "" /\ c.k = k
IsAny(c, ks) == c.n = "" /\ c.k \in ks
\* kind of the token before a node
Before(d, x) == IF x.a = 1 THEN "EOF" ELSE d.k[x.a - 1]
\* something (token or comment) precedes the node
NotFirst(d, x) == x.a > 1 \/ HasComment(d.g[1])

RECURSIVE Has(_, _)
Has(x, names) ==
  \E j \in 1..Len(x.c) : x.c[j].n # "" /\ (x.c[j].n \in names \/ Has(x.c[j], names))

\* parts that always go to a line of their own, so that whatever contains
\* them is wrapped in the output
OwnLine == {"Description", "DescriptionString", "ConstrainingClause"}

\* the bracket kinds are on different lines
Apart(d, x, open, close) ==
  \E i, j \in 1..Len(x.c) : /\ i < j
                            /\ IsTok(x.c[i], open)
                            /\ IsTok(x.c[j], close)
                            /\ d.s[x.c[i].a] < d.s[x.c[j].a]

\* a conditional expression that spans lines
MultiIf(d, x) == Multi(d, x) /\ d.k[x.a] = "If"

Inheriting == {"FunctionArguments", "FunctionArgumentsNonFirst", "ArrayArguments",
               "ArrayArgumentsNonFirst", "NamedArguments"}
Lists == {"EnumList", "ImportList", "ArgumentList", "ArgumentOrInheritanceModificationList",
          "ExpressionList"}
OwnMulti == {"ConnectEquation", "Expression", "Primary", "FunctionCallArgs", "ArraySubscripts",
             "DescriptionString"}

(* Is the list in node x to be wrapped?  up: so says the enclosing node.   *)
Wrapped(d, x, up) ==
  CASE x.n \in Inheriting -> up
    [] x.n \in Lists -> up \/ Multi(d, x)
    [] x.n \in OwnMulti -> Multi(d, x)
    [] x.n = "ClassModification" -> Multi(d, x) \/ Has(x, OwnLine)
    [] x.n = "ClassOrInheritanceModification" ->
         Len(x.c) > 2 /\ (Multi(d, x) \/ Has(x, OwnLine))
    [] x.n = "ComponentList" -> Len(x.c) > 1 /\ (Multi(d, x) \/ Has(x, OwnLine))
    [] x.n \in {"DerClassSpecifier", "ExternalFunctionCall", "FunctionPartialApplication"} ->
         Apart(d, x, "LParen", "RParen")
    [] x.n = "ImportClause" -> Apart(d, x, "LCurly", "RCurly")
    [] x.n = "ShortClassSpecifier" ->
         \/ Apart(d, x, "LParen", "RParen")
         \/ \E j \in 1..Len(x.c) : x.c[j].n = "EnumList" /\ Has(x.c[j], {"Description"})
    [] OTHER -> FALSE

---------------------------------------------------------------------------
(* Operations                                                              *)

Ind == <<[o |-> "I"]>>
Ded == <<[o |-> "D"]>>
Sp == <<[o |-> "S", y |-> "sp"]>>
None == <<>>
Brk(m) == <<[o |-> "B", m |-> m, y |-> "line"]>>
\* a line break where the list or expression is wrapped, otherwise a space / nothing
BrkSp(f, y) == IF f THEN <<[o |-> "B", m |-> "Illegal", y |-> y]>> ELSE <<[o |-> "S", y |-> y]>>
BrkNo(f, y) == IF f THEN <<[o |-> "B", m |-> "Illegal", y |-> y]>> ELSE <<[o |-> "N", y |-> y]>>

Around(pre, post) == [a |-> pre, z |-> post]
Plain == Around(None, None)
\* a part on a line of its own, indented once more
Below == Around(Ind \o Brk("Illegal"), Ded)
\* a right-hand side: a wrapped conditional expression starts on a new line
Rhs(d, c) == IF MultiIf(d, c)
             THEN Around(Ind \o BrkSp(TRUE, "expr"), Ded)
             ELSE Around(BrkSp(FALSE, "expr"), None)

SpaceAfterTokens == {"ClassDefinition", "Element", "ExtendsClause", "ConstrainingClause",
  "AnnotationClause", "ElementModificationOrReplaceable", "ElementRedeclaration",
  "ElementReplaceable", "ConditionAttribute", "ForIndices"}
SpacedTokens == {"DerClassSpecifier", "ShortClassSpecifier", "ExternalFunctionCall",
  "ImportClause"}   \* `=' has a space on both sides
BodyRules == {"IfEquation", "IfStatement", "ForEquation", "ForStatement", "WhileStatement",
  "WhenEquation", "WhenStatement"}
DescribedRules == {"ShortClassSpecifier", "DerClassSpecifier", "EnumerationLiteral", "Element",
  "ImportClause", "ComponentDeclaration", "ComponentDeclaration1", "Equation", "Statement"}

\* the annotation of an external declaration, not that of the class
ExternalAnnotation(d, x, j) ==
  \/ Before(d, x.c[j]) = "External"
  \/ /\ j > 1
     /\ x.c[j - 1].n \in {"LanguageSpecification", "ExternalFunctionCall"}

(* What surrounds child j of node x (binary operators are in Operator).    *)
AroundChild(d, x, j, wr) ==
  LET c == x.c[j]
      n == x.n
      prev == IF j = 1 THEN [n |-> "", k |-> "EOF"] ELSE x.c[j - 1]
      tok == c.n = ""
  IN
  CASE n \in DescribedRules /\ c.n = "Description" -> Below
    [] n \in SpacedTokens /\ IsTok(c, "Equal") -> Around(Sp, Sp)
    [] n \in SpaceAfterTokens /\ tok -> Around(None, Sp)
    [] n = "StoredDefinition" ->
         (CASE c.n = "ClassDefinition" /\ NotFirst(d, c) /\ Before(d, c) # "Final" ->
                 Around(Brk("Legal"), None)
            [] IsTok(c, "Final") -> Around(IF NotFirst(d, c) THEN Brk("Legal") ELSE None, Sp)
            [] IsTok(c, "Within") -> Around(IF NotFirst(d, c) THEN Brk("Illegal") ELSE None, Sp)
            [] OTHER -> Plain)
    [] n = "ClassDefinition" /\ c.n = "ClassSpecifier" -> Around(Sp, None)
    [] n \in {"ClassPrefixes", "TypePrefix"} /\ j > 1 -> Around(Sp, None)
    [] n = "LongClassSpecifier" ->
         (CASE c.n = "DescriptionString" -> Below
            [] IsTok(c, "End") -> Around(Brk("Required"), Sp)
            [] IsTok(c, "Extends") -> Around(None, Sp)
            [] OTHER -> Plain)
    [] n = "ShortClassSpecifier" ->
         (CASE c.n = "BasePrefix" -> Around(None, Sp)
            [] c.n = "EnumList" ->
                 IF wr THEN Around(Ind \o BrkNo(TRUE, "list"), Ded)
                 ELSE Around(BrkNo(FALSE, "list"), None)
            [] OTHER -> Plain)
    [] n = "DerClassSpecifier" ->
         (CASE c.n = "TypeSpecifier" -> Around(BrkNo(wr, "list"), None)
            [] IsTok(c, "Identifier") /\ IsTok(prev, "Comma") -> Around(BrkSp(wr, "list"), None)
            [] IsTok(c, "LParen") -> Around(None, Ind)
            [] IsTok(c, "RParen") -> Around(None, Ded)
            [] OTHER -> Plain)
    [] n = "ImportList" /\ j > 1 /\ IsTok(c, "Identifier") -> Around(BrkSp(wr, "list"), None)
    [] n \in (Lists \ {"ImportList"}) /\ ~tok /\ j > 1 -> Around(BrkSp(wr, "list"), None)
    [] n = "Composition" ->
         (CASE c.n \in {"ElementList", "ExternalFunctionCall"} ->
                 Around(Ind \o Brk("Required"), Ded)
            [] c.n \in {"EquationSection", "AlgorithmSection"} -> Around(Brk("Required"), None)
            [] c.n = "LanguageSpecification" -> Around(Sp, None)
            [] c.n = "AnnotationClause" ->
                 IF ExternalAnnotation(d, x, j)
                 THEN Around(Ind \o Ind \o Brk("Illegal"), Ded \o Ded)
                 ELSE Around(Ind \o Brk("Required"), Ded)
            [] IsAny(c, {"Protected", "Public", "External"}) -> Around(Brk("Required"), None)
            [] OTHER -> Plain)
    [] n = "ElementList" /\ c.n = "Element" /\ j > 1 -> Around(Brk("Legal"), None)
    [] n = "Element" /\ c.n = "ConstrainingClause" -> Below
    [] n = "ImportClause" ->
         (CASE IsTok(c, "Import") -> Around(None, Sp)
            [] c.n = "ImportList" ->
                 Around((IF wr THEN Ind ELSE None) \o BrkNo(wr, "list"), None)
            [] IsTok(c, "RCurly") -> Around(None, IF wr THEN Ded ELSE None)
            [] OTHER -> Plain)
    [] n = "ExtendsClause" /\ c.n = "AnnotationClause" -> Below
    [] n \in {"ExternalFunctionCall", "ClassModification", "ClassOrInheritanceModification",
              "FunctionCallArgs", "FunctionPartialApplication", "ArraySubscripts"}
       /\ ~tok /\ IsAny(prev, {"LParen", "LBracket"}) -> Around(BrkNo(wr, "list"), None)
    [] n = "ArraySubscripts" /\ ~tok -> Around(BrkSp(wr, "list"), None)
    [] n = "FunctionPartialApplication" /\ c.n = "TypeSpecifier" -> Around(Sp, None)
    [] n = "InheritanceModification" /\ IsTok(c, "Break") -> Around(None, Sp)
    [] n = "ComponentClause" /\ c.n = "TypePrefix" -> Around(None, Sp)
    [] n = "ComponentList" /\ ~tok -> Around(BrkSp(wr, "list"), None)
    [] n = "ComponentDeclaration" /\ c.n = "ConditionAttribute" -> Around(Sp, None)
    [] n = "Modification" ->
         (CASE tok -> Around(Sp, None)
            [] c.n = "ModificationExpression" -> Rhs(d, c)
            [] OTHER -> Plain)
    [] n = "ElementModification" /\ c.n = "DescriptionString" -> Below
    [] n = "ElementReplaceable" /\ c.n = "ConstrainingClause" -> Below
    [] n = "ComponentClause1" ->
         (CASE c.n = "TypeSpecifier" /\ j > 1 -> Around(Sp, None)
            [] c.n = "ComponentDeclaration1" -> Around(Sp, None)
            [] OTHER -> Plain)
    [] n = "ShortClassDefinition" /\ c.n = "ShortClassSpecifier" -> Around(Sp, None)
    [] n \in {"EquationSection", "AlgorithmSection"} ->
         (CASE ~tok -> Around(Brk(IF IsAny(prev, {"Equation", "Algorithm"})
                                  THEN "Required" ELSE "Legal"), None)
            [] IsTok(c, "Initial") -> Around(None, Sp)
            [] OTHER -> Plain)
    [] n \in {"Equation", "Statement"} ->
         (CASE c.n = "Expression" -> Rhs(d, c)
            [] IsAny(c, {"Equal", "Assign"}) -> Around(Sp, None)
            [] c.n = "ComponentReference" /\ IsTok(prev, "Assign") -> Around(Sp, None)
            [] OTHER -> Plain)
    [] n \in BodyRules ->
         (CASE c.n \in {"Expression", "ForIndices"} -> Around(Sp, Sp)
            [] c.n \in {"Equation", "Statement"} -> Around(Ind \o Brk("Legal"), Ded)
            [] tok /\ IsTok(prev, "End") -> Around(Sp, None)
            [] IsAny(c, {"ElseIf", "Else", "ElseWhen", "End"}) -> Around(Brk("Legal"), None)
            [] OTHER -> Plain)
    [] n = "ForIndex" /\ IsTok(c, "In") -> Around(Sp, Sp)
    [] n = "ConnectEquation" /\ ~tok ->
         Around(IF j = 3 THEN BrkNo(wr, "list") ELSE BrkSp(wr, "list"), None)
    [] n = "Expression" /\ c.n = "Expression" ->
         IF IsAny(prev, {"Then", "Else"})
         THEN Around(Ind \o BrkSp(wr, "expr"),
                     Ded \o (IF j < Len(x.c) THEN BrkSp(wr, "expr") ELSE None))
         ELSE Around(Sp, Sp)
    [] n = "SimpleExpression" /\ tok -> Around(Sp, Sp)
    [] n = "LogicalFactor" /\ tok -> Around(None, Sp)
    [] n = "Primary" ->
         (CASE ~tok /\ IsAny(prev, {"LCurly", "LBracket"}) ->
                 Around(Ind \o BrkNo(wr, "list"), None)
            [] ~tok /\ IsTok(prev, "Semicolon") -> Around(BrkSp(wr, "list"), None)
            [] IsAny(c, {"RCurly", "RBracket"}) -> Around(Ded, None)
            [] OTHER -> Plain)
    [] n \in Inheriting ->
         (CASE IsTok(c, "For") -> Around(BrkSp(wr, "list"), Sp)
            [] ~tok /\ IsTok(prev, "Comma") -> Around(BrkSp(wr, "list"), None)
            [] OTHER -> Plain)
    [] n = "NamedArgument" ->
         (CASE IsTok(c, "Equal") -> Around(Sp, None)
            [] ~tok -> Rhs(d, c)
            [] OTHER -> Plain)
    [] n = "OutputExpressionList" /\ tok ->
         Around(IF Before(d, c) = "LParen" THEN Sp ELSE None, Sp)
    [] n = "ResultReference" /\ IsTok(c, "Comma") -> Around(None, Sp)
    [] n = "Description" /\ c.n = "AnnotationClause" /\ j > 1 -> Around(Brk("Illegal"), None)
    [] n = "DescriptionString" /\ IsTok(c, "Plus") -> Around(BrkSp(wr, "list"), Sp)
    [] OTHER -> Plain

SelfIndented == {"ExternalFunctionCall", "ClassOrInheritanceModification", "ClassModification",
  "EquationSection", "AlgorithmSection", "ConnectEquation", "FunctionCallArgs",
  "FunctionPartialApplication", "ArraySubscripts", "DescriptionString"}

OperatorRules == {"LogicalExpression", "LogicalTerm", "Relation", "ArithmeticExpression", "Term",
  "Factor"}
\* child j of x is a binary operator
BinaryOperator(x, j) ==
  /\ x.n \in OperatorRules
  /\ j > 1
  /\ x.c[j].n \in {"", "RelationalOperator", "AddOperator", "MulOperator"}

ThreadsWrap == OperatorRules \cup
  {"SimpleExpression", "LogicalFactor", "Primary", "OutputExpressionList", "Expression"}

(* Ops(d, x, up, w, par): the program of node x.  up: the enclosing list   *)
(* is wrapped; w: an enclosing expression was already broken at an operator*)
(* (and so indented); par: name of the parent.  Result: [o |-> program,    *)
(* w |-> was the expression broken].                                       *)
RECURSIVE Ops(_, _, _, _, _)
Ops(d, x, up, w, par) ==
  IF x.n = "" THEN [o |-> <<[o |-> "T", i |-> x.a]>>, w |-> w]
  ELSE
  LET wr == TLCEval(Wrapped(d, x, up))
      threads == x.n \in ThreadsWrap
      child(acc, j) ==
        LET c == x.c[j]
            cup == IF x.n = "Primary" /\ c.n = "ExpressionList" THEN wr /\ Len(x.c) = 3 ELSE wr
            \* sub-expressions of lists and of conditional expressions start afresh
            cw == IF threads /\ ~(x.n = "Expression" /\ c.n = "Expression")
                  THEN acc.w ELSE FALSE
        IN IF BinaryOperator(x, j)
           THEN LET broken == d.s[x.c[j + 1].a] > d.e[c.a - 1]
                    body == Ops(d, c, FALSE, FALSE, x.n)
                IN [o |-> acc.o \o (IF broken /\ ~acc.w THEN Ind ELSE None)
                              \o BrkSp(broken, "expr") \o body.o \o Sp,
                    w |-> acc.w \/ broken]
           ELSE LET ar == AroundChild(d, x, j, wr)
                    body == Ops(d, c, cup, cw, x.n)
                    \* who ends the indentation of a broken expression
                    ends == body.w /\ c.n \in {"SimpleExpression", "OutputExpressionList"}
                                   /\ x.n \in {"Equation", "Statement"}
                IN [o |-> acc.o \o ar.a \o body.o \o (IF ends THEN Ded ELSE None) \o ar.z,
                    w |-> IF threads THEN (IF c.n \in ThreadsWrap /\
                                              ~(x.n = "Expression" /\ c.n = "Expression")
                                           THEN body.w ELSE acc.w)
                          ELSE acc.w]
      indented == x.n \in SelfIndented \/ (x.n = "ComponentList" /\ wr)
      r == FoldLeft(child, [o |-> IF indented THEN Ind ELSE None, w |-> w],
                    [j \in 1..Len(x.c) |-> j])
      close == x.n = "Expression" /\ r.w /\ par # "OutputExpressionList"
  IN [o |-> r.o \o (IF indented \/ close THEN Ded ELSE None), w |-> r.w]

(* A document is a file or a fragment: what one of the other nonterminals  *)
(* derives.  Comments after the last token of a fragment are not printed,  *)
(* but the blank that follows the comma of "a, b, " is.                     *)
IsFile(d) == d.k = <<>> \/ d.t.n = "StoredDefinition"
Program(d) ==
  (IF d.k = <<>> THEN None ELSE Ops(d, d.t, FALSE, FALSE, "").o)
  \o <<[o |-> IF IsFile(d) THEN "E" ELSE "F"]>>

---------------------------------------------------------------------------
(* The printing machine                                                    *)
(*   ind  indentation level      q  operations since the last token        *)
(*   n    tokens printed         out  output gaps                          *)
(* An output gap: [p |-> pieces, ind |-> level, y |-> reason, m |-> mode]; *)
(* its pieces are those of an input gap, every "n" at the end of a run of  *)
(* line ends being followed by the indentation.                            *)

(* The comments of a gap: piece, first and last line relative to the end   *)
(* of the preceding token; l: line of what follows.                        *)
CommentsOf(g) ==
  FoldLeft(LAMBDA acc, p :
             IF p = "n" THEN [acc EXCEPT !.l = @ + 1]
             ELSE IF p = "s" THEN acc
             ELSE LET e == acc.l + Height(p)
                  IN [l |-> e, c |-> Append(acc.c, [p |-> p, s |-> acc.l, e |-> e])],
           [l |-> 0, c |-> <<>>], g)

Vertical(dist) == IF dist > 1 THEN <<"n", "n">> ELSE <<"n">>

\* the comments that continue the line of the preceding token
Inline(cs) == SelectSeq(cs, LAMBDA c : c.s = 0)
Own(cs) == SelectSeq(cs, LAMBDA c : c.s > 0)

BreakPieces(g, mode, first) ==
  LET a == CommentsOf(g)
      inl == Inline(a.c)
      own == Own(a.c)
      p0 == FoldLeft(LAMBDA acc, c : acc \o (IF first /\ acc = <<>> THEN <<>> ELSE <<"s">>) \o <<c.p>>,
                     <<>>, inl)
      l0 == IF inl = <<>> THEN 0 ELSE inl[Len(inl)].e
      p1 == IF mode = "Required" THEN p0 \o <<"n", "n">> ELSE p0
      ownstep(acc, j) ==
        LET c == own[j]
            sep == IF mode = "Required"
                   THEN IF j = 1 THEN <<>> ELSE Vertical(c.s - acc.l)
                   ELSE IF first /\ acc.p = <<>> THEN <<>>
                   ELSE Vertical(c.s - acc.l)
        IN [p |-> acc.p \o sep \o <<c.p>>, l |-> c.e]
      r == FoldLeft(ownstep, [p |-> p1, l |-> l0], [j \in 1..Len(own) |-> j])
      last == CASE mode = "Legal" -> Vertical(a.l - r.l)
                [] mode = "Illegal" -> <<"n">>
                [] mode = "Required" -> IF own = <<>> THEN <<>> ELSE Vertical(a.l - r.l)
  IN r.p \o last

(* The comments that follow the last token.                                *)
TrailPieces(g, first) ==
  LET a == CommentsOf(g)
      step(acc, c) ==
        [p |-> acc.p \o
           (IF first /\ acc.p = <<>> THEN <<>>
            ELSE IF c.s = 0 THEN <<"s">>
            ELSE Vertical(c.s - acc.l)) \o <<c.p>>,
         l |-> c.e]
  IN FoldLeft(step, [p |-> <<>>, l |-> 0], a.c).p

Machine0 == [ind |-> 0, q |-> <<>>, n |-> 0, out |-> <<>>]

PiecesOf(d, i, op) ==
  CASE op.o = "S" -> <<"s">>
    [] op.o = "N" -> <<>>
    [] op.o = "B" -> BreakPieces(d.g[i], op.m, i = 1 /\ op.ind = 0)

OutGap(d, m, i) ==
  LET q == m.q
      pieces == FoldLeft(LAMBDA acc, op : acc \o PiecesOf(d, i, op), <<>>, q)
  IN [p |-> pieces, ind |-> IF q = <<>> THEN m.ind ELSE q[Len(q)].ind,
      y |-> IF q = <<>> THEN "sp" ELSE q[Len(q)].y,
      m |-> IF q = <<>> \/ q[Len(q)].o # "B" THEN "" ELSE q[Len(q)].m]

Step(d, m, op) ==
  CASE op.o = "I" -> [m EXCEPT !.ind = @ + 1]
    [] op.o = "D" -> [m EXCEPT !.ind = @ - 1]
    [] op.o \in {"S", "N", "B"} -> [m EXCEPT !.q = Append(@, [ind |-> m.ind] @@ op)]
    [] op.o = "T" -> [m EXCEPT !.out = Append(@, OutGap(d, m, op.i)), !.q = <<>>, !.n = op.i]
    [] op.o = "E" -> [m EXCEPT !.out = Append(@, [p |-> TrailPieces(d.g[m.n + 1], m.n = 0),
                                                  ind |-> m.ind, y |-> "line", m |-> "End"]),
                               !.q = <<>>]
    [] op.o = "F" -> IF m.q = <<>> THEN m
                     ELSE [m EXCEPT !.out = Append(@, OutGap(d, m, m.n + 1)), !.q = <<>>]

Run(d, ops) == FoldLeft(LAMBDA m, op : Step(d, m, op), Machine0, ops)

(* The output of the formatter: a gap for every boundary.                  *)
Layout(d) == Run(d, Program(d)).out

---------------------------------------------------------------------------
(* Properties of the specification                                         *)

\* everything that was opened is closed, and the text is flushed
Balanced(d, m) ==
  IF IsFile(d) THEN m.ind = 0 /\ m.n = Len(d.k) /\ Len(m.out) = Len(d.k) + 1
  \* a broken operator expression is closed by what surrounds it
  ELSE m.ind \in {0, 1} /\ m.n = Len(d.k) /\ Len(m.out) \in {Len(d.k), Len(d.k) + 1}

Comments(g) == SelectSeq(g, IsPiece)

\* a comment survives, in order, where the layout breaks the line
CommentsKept(d, out) ==
  \A i \in 1..Len(out) : out[i].m # "" => Comments(out[i].p) = Comments(d.g[i])

\* no two blank lines in a row, no blanks at the end of a line, a line
\* comment is the last thing on its line
TidyGap(g, final) ==
  /\ \A i \in 1..(Len(g) - 2) : ~(g[i] = "n" /\ g[i + 1] = "n" /\ g[i + 2] = "n")
  /\ \A i \in 1..(Len(g) - 1) : ~(g[i] = "s" /\ g[i + 1] \in {"s", "n"})
  /\ \A i \in 1..Len(g) : g[i] = "L" => IF i = Len(g) THEN final ELSE g[i + 1] = "n"
Tidy(d, out) ==
  \A i \in 1..Len(out) :
    /\ TidyGap(out[i].p, i = Len(out))
    /\ (i = 1 /\ out[i].p # <<>> /\ IsFile(d)) => out[i].p[1] # "n" /\ out[i].p[1] # "s"

\* kinds whose lexemes are made of letters and digits
Symbols == {"Comma", "Dot", "Semicolon", "Colon", "LParen", "RParen", "LCurly", "RCurly",
  "LBracket", "RBracket", "Equal", "Assign", "Plus", "Minus", "Star", "Slash", "Flex", "DotPlus",
  "DotMinus", "DotStar", "DotSlash", "DotFlex", "Gre", "Geq", "Les", "Leq", "Neq", "Eq", "String"}
Word(k) == k \notin Symbols
\* two tokens that, written without anything in between, are read as others
Merge(k1, k2) ==
  \/ Word(k1) /\ Word(k2)
  \/ k1 \in {"UInt", "UReal"} /\ k2 \in {"Dot", "DotPlus", "DotMinus", "DotStar", "DotSlash", "DotFlex"}
  \/ k1 \in {"Colon", "Equal", "Les", "Gre"} /\ k2 \in {"Equal", "Eq"}
  \/ k1 = "Les" /\ k2 \in {"Gre", "Geq"}
  \/ k1 = "Dot" /\ k2 \in {"Plus", "Minus", "Star", "Slash", "Flex"}
  \/ k1 = "Slash" /\ k2 \in {"Slash", "Star"}
Safe(k1, k2) == ~Merge(k1, k2)
NoGluing(d, out) ==
  \A i \in 2..Len(d.k) : out[i].p = <<>> => Safe(d.k[i - 1], d.k[i])

\* formatting the output changes nothing
Again(d, out) ==
  Document(d.t, d.k, [i \in 1..(Len(d.k) + 1) |-> IF i > Len(out) THEN <<>> ELSE out[i].p], d.h)
Idempotent(d, out) ==
  LET o2 == Layout(Again(d, out))
  IN \A i \in 1..Len(out) : o2[i].p = out[i].p /\ (("n" \in Range(out[i].p)) => o2[i].ind = out[i].ind)

\* one separator per boundary at most
OneSeparator(ops) ==
  \A i \in 2..Len(ops) : ~(ops[i].o \in {"S", "N", "B"} /\ ops[i - 1].o \in {"S", "N", "B"})
=============================================================================
