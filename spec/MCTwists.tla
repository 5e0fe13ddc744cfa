-------------------------------- MODULE MCTwists --------------------------------
(***************************************************************************)
(* Near misses.  A twist of a rule is the rule with one part left out,     *)
(* doubled, exchanged with its neighbour, freed of its guard, or replaced  *)
(* by a phrase of a related nonterminal.  What is derived from it is       *)
(* Modelica with one construct a little wrong, or still right but unusual. *)
(* The behaviours derive a document in which the goal follows the twisted  *)
(* rule, by every script of at most MaxDev choices in that rule, and read  *)
(* it with the recogniser of the real grammar; the verdict is as in        *)
(* MCMutants.                                                              *)
(* Whole: the documents are files, otherwise fragments.                    *)
(***************************************************************************)
EXTENDS Docs, Recogniser
CONSTANTS MaxDev, Phrased, Whole, Emit
VARIABLES goal, twist, script, dev, arity, kinds, pos, state, bad

vars == <<goal, twist, script, dev, arity, kinds, pos, state, bad>>

ASSUME TablesReady
ASSUME RecTablesReady

Gone == Sq(<<>>)
Twice(x) == Sq(<<x, x>>)

(* Phrases, by families of nonterminals.                                   *)
Ph(ks) == Sq([i \in 1..Len(ks) |-> Tk(ks[i])])
X == "Identifier"
Values == {
  <<X>>, <<"UInt">>, <<"Dot", X>>, <<X, "Dot", X>>, <<X, "LBracket", "UInt", "RBracket">>,
  <<X, "LBracket", "Colon", "RBracket">>, <<X, "LBracket", "RBracket">>,
  <<"End">>, <<"Colon">>, <<"Break">>, <<"String">>, <<"Bool">>,
  <<X, "LParen", "RParen">>, <<X, "LParen", X, "Equal", X, "RParen">>, <<X, "LParen", "Function", X, "LParen", "RParen", "RParen">>,
  <<"Function", X, "LParen", "RParen">>, <<X, "Equal", X>>,
  <<"Der", "LParen", X, "RParen">>, <<"Der">>, <<"Initial", "LParen", "RParen">>, <<"Initial">>,
  <<"Pure", "LParen", X, "RParen">>, <<"Impure", "LParen", X, "RParen">>,
  <<"LParen", "RParen">>, <<"LParen", X, "RParen">>, <<"LParen", X, "Comma", "RParen">>,
  <<"LParen", "Comma", X, "RParen">>, <<"LParen", X, "RParen", "LBracket", "UInt", "RBracket">>,
  <<"LCurly", X, "RCurly">>, <<"LCurly", "RCurly">>, <<"LCurly", X, "Comma", X, "RCurly">>,
  <<"LCurly", X, "For", X, "RCurly">>, <<"LCurly", X, "RCurly", "LBracket", "UInt", "RBracket">>,
  <<"LBracket", X, "RBracket">>, <<"LBracket", X, "Semicolon", X, "RBracket">>, <<"LBracket", "RBracket">>,
  <<X, "For", X, "In", X>>, <<X, "Comma", X>>,
  <<"Minus", X>>, <<"Plus", X>>, <<"DotMinus", X>>, <<"Minus", "Minus", X>>,
  <<X, "Plus", X>>, <<X, "Minus", X>>, <<X, "Plus", "Minus", X>>, <<X, "Star", X>>, <<X, "Star", "Minus", X>>,
  <<X, "DotSlash", X>>, <<X, "Flex", X>>, <<X, "Flex", X, "Flex", X>>, <<X, "Flex", "Minus", X>>,
  <<X, "DotFlex", X>>, <<"Minus", X, "Flex", X>>,
  <<X, "Les", X>>, <<X, "Les", X, "Les", X>>, <<X, "Eq", X>>, <<"Not", X>>, <<"Not", "Not", X>>,
  <<"Not", X, "Les", X>>, <<X, "And", X>>, <<X, "Or", X>>, <<X, "And", "Not", X>>, <<X, "Les", "Not", X>>,
  <<X, "Colon", X>>, <<X, "Colon", X, "Colon", X>>, <<X, "Colon", X, "Colon", X, "Colon", X>>,
  <<"If", X, "Then", X, "Else", X>>, <<"If", X, "Then", X>>,
  <<"If", X, "Then", X, "ElseIf", X, "Then", X, "Else", X>> }
Actions == {
  <<X, "Equal", X>>, <<X, "Assign", X>>, <<X, "LParen", "RParen">>, <<X>>, <<X, "Plus", X>>,
  <<X, "Assign", "If", X, "Then", X, "Else", X>>, <<X, "Equal", "If", X, "Then", X, "Else", X>>,
  <<"If", X, "Then", X, "Else", X, "Equal", X>>, <<X, "Equal", X, "Equal", X>>,
  <<X, "Colon", X, "Equal", X>>, <<"Not", X>>, <<"Initial", "LParen", "RParen">>, <<"End">>,
  <<"LParen", X, "RParen", "Assign", X, "LParen", "RParen">>, <<"LParen", X, "Comma", X, "RParen", "Equal", X, "LParen", "RParen">>,
  <<"LParen", "RParen", "Assign", X, "LParen", "RParen">>, <<"LParen", X, "RParen", "Assign", X>>,
  <<"LParen", "Comma", X, "RParen", "Assign", X, "Dot", X, "LParen", X, "RParen">>,
  <<"Der", "LParen", X, "RParen", "Equal", X>>, <<"Der", "LParen", X, "RParen", "Assign", X>>,
  <<"Break">>, <<"Return">>, <<"Connect", "LParen", X, "Comma", X, "RParen">>, <<"Connect", "LParen", X, "RParen">>,
  <<"If", X, "Then", "End", "If">>, <<"For", X, "In", X, "Loop", "End", "For">>, <<"For", "Loop", "End", "For">>,
  <<"While", X, "Loop", "End", "While">>, <<"When", X, "Then", "End", "When">>,
  <<"When", X, "Then", "Else", "End", "When">>, <<"If", X, "Then", "ElseWhen", X, "Then", "End", "If">>,
  <<"When", X, "Then", "ElseIf", X, "Then", "End", "When">>, <<"If", X, "Then", "Else", "ElseIf", X, "Then", "End", "If">>,
  <<"If", X, "Loop", "End", "If">>, <<"While", X, "Then", "End", "While">>, <<"If", X, "Then", "End", "For">>,
  <<"Annotation", "LParen", "RParen">>, <<"String">>, <<X, X>> }
Parts == {
  <<X, X>>, <<X, X, "Equal", "UInt">>, <<X, X, "Comma", X>>, <<X, X, "If", X>>, <<X, X, "LParen", "RParen">>,
  <<X, "LBracket", "UInt", "RBracket", X>>, <<X, "LBracket", "Colon", "RBracket", X, "LBracket", "Colon", "RBracket">>,
  <<"Flow", X, X>>, <<"Stream", "Parameter", "Output", X, X>>, <<"Input", "Parameter", X, X>>, <<"Parameter", "Flow", X, X>>,
  <<"Constant", "Parameter", X, X>>, <<"Input", "Output", X, X>>, <<"Discrete", "Input", "Dot", X, X>>,
  <<"Import", X>>, <<"Import", X, "DotStar">>, <<"Import", X, "Equal", X, "Dot", X>>, <<"Import", X, "Dot", X, "Equal", X>>,
  <<"Import", "Dot", X>>, <<"Import", X, "Dot", "LCurly", X, "Comma", X, "RCurly">>, <<"Import", X, "Dot", "LCurly", "RCurly">>,
  <<"Import", X, "Dot", "Star">>, <<"Import", X, "String">>,
  <<"Extends", X>>, <<"Extends", "Dot", X, "LParen", "Break", X, "RParen">>, <<"Extends", X, "String">>,
  <<"Extends", X, "Annotation", "LParen", "RParen">>, <<"Final", "Extends", X>>, <<"Redeclare", "Import", X>>,
  <<"Redeclare", "Final", "Inner", "Outer", X, X>>, <<"Final", "Redeclare", X, X>>, <<"Outer", "Inner", X, X>>,
  <<"Inner", "Final", X, X>>, <<"Replaceable", X, X>>, <<"Replaceable", "Inner", X, X>>, <<"Inner", "Replaceable", X, X>>,
  <<"Replaceable", X, X, "Constrainedby", X>>, <<X, X, "Constrainedby", X>>,
  <<"Replaceable", X, X, "Constrainedby", X, "LParen", "RParen", "String">>,
  <<"Replaceable", "Model", X, "Equal", X>>, <<"Each", X, X>>, <<"Replaceable", "Replaceable", X, X>>,
  <<"Model", X, "End", X>>, <<"Model", X, "Equal", X>>, <<"Model", "Extends", X, "End", X>>, <<"Model", X, "Extends", X, "End", X>>,
  <<"Type", X, "Equal", "Enumeration", "LParen", "RParen">>, <<"Type", X, "Equal", "Enumeration", "LParen", "Colon", "RParen">>,
  <<"Type", X, "Equal", "Enumeration", "LParen", X, "Comma", X, "RParen">>, <<"Type", X, "Equal", "Enumeration">>,
  <<"Function", X, "Equal", "Der", "LParen", X, "Comma", X, "RParen">>, <<"Function", X, "Equal", "Der", "LParen", X, "RParen">>,
  <<"Model", X, "Equal", "Input", X, "LBracket", "UInt", "RBracket", "LParen", "RParen">>, <<"Model", X, "Equal", "Flow", X>>,
  <<"Model", "Extends", X, "Equal", X>>, <<"Model", "Extends", X, "LParen", X, "Equal", X, "RParen", "String", "End", X>>,
  <<"Encapsulated", "Model", X, "End", X>>, <<"Partial", "Encapsulated", "Model", X, "End", X>>, <<"Encapsulated", "Partial", "Model", X, "End", X>>,
  <<"Expandable", "Model", X, "End", X>>, <<"Pure", "Model", X, "End", X>>, <<"Pure", "Operator", X, "End", X>>,
  <<"Pure", "Operator", "Function", X, "End", X>>, <<"Operator", "Pure", "Function", X, "End", X>>, <<"Operator", "Model", X, "End", X>>,
  <<"Final", "Model", X, "End", X>>, <<"Model", X, "Equation", "End", X>>, <<"Model", X, "End">>, <<"Model", X>>,
  <<"Model", X, "External", "Semicolon", "Annotation", "LParen", "RParen", "Semicolon", "End", X>>,
  <<"Model", X, "External", X, "LParen", "RParen", "Semicolon", "Public", "End", X>>,
  <<"Model", X, "Annotation", "LParen", "RParen", "Semicolon", X, X, "Semicolon", "End", X>>,
  <<"Model", X, "Public", X, X, "Semicolon", "Initial", "Algorithm", "Protected", "End", X>>,
  <<"Annotation", "LParen", "RParen">>, <<"Equation">>, <<"Public">>, <<"String">>, <<X>> }
Changes == {
  <<X>>, <<X, "Equal", X>>, <<X, "Assign", X>>, <<X, "Equal", "Break">>, <<X, "LParen", "RParen">>, <<X, "LParen", "RParen", "Equal", X>>,
  <<X, "LParen", "RParen", "Assign", X>>, <<X, "Dot", X, "Equal", X>>, <<"Dot", X, "Equal", X>>, <<X, "LBracket", "UInt", "RBracket", "Equal", X>>,
  <<X, "Equal", X, "String">>, <<X, "Equal", X, "Annotation", "LParen", "RParen">>, <<X, "Equal", "String", "Plus", "String">>,
  <<"Each", X, "Equal", X>>, <<"Final", X, "Equal", X>>, <<"Each", "Final", X>>, <<"Final", "Each", X>>,
  <<"Redeclare", X, X>>, <<"Redeclare", X>>, <<"Redeclare", "Each", "Final", X, X>>, <<"Each", "Redeclare", X, X>>, <<"Redeclare", "Final", "Each", X, X>>,
  <<"Redeclare", "Model", X, "Equal", X>>, <<"Redeclare", "Model", X, "End", X>>, <<"Redeclare", "Replaceable", X, X>>,
  <<"Redeclare", "Replaceable", X, X, "Constrainedby", X>>, <<"Redeclare", X, X, "Constrainedby", X>>,
  <<"Redeclare", "Encapsulated", "Model", X, "Equal", X>>, <<"Redeclare", "Partial", "Model", X, "Equal", X>>,
  <<"Redeclare", "Input", X, X, "Equal", X>>, <<"Redeclare", X, "LBracket", "UInt", "RBracket", X>>, <<"Redeclare", X, X, "Comma", X, X>>,
  <<"Replaceable", X, X>>, <<"Each", "Final", "Replaceable", "Model", X, "Equal", X>>, <<"Replaceable", X, X, "Constrainedby", X, "LParen", X, "RParen">>,
  <<"Replaceable", "Redeclare", X, X>>, <<"Redeclare", "Function", X, "Equal", "Der", "LParen", X, "Comma", X, "RParen">>,
  <<"Redeclare", "Type", X, "Equal", "Enumeration", "LParen", X, "RParen">>,
  <<"Break", X>>, <<"Break", "Connect", "LParen", X, "Comma", X, "RParen">>, <<"Break">>, <<X, X>>, <<"UInt">>, <<X, "Comma">> }
Families == <<
  [ns |-> {"Expression", "SimpleExpression", "LogicalExpression", "LogicalTerm", "LogicalFactor", "Relation",
           "ArithmeticExpression", "Term", "Factor", "Primary", "TypeSpecifier", "Name", "ComponentReference",
           "FunctionArguments", "FunctionArgumentsNonFirst", "ArrayArguments", "ArrayArgumentsNonFirst",
           "NamedArguments", "NamedArgument", "FunctionArgument", "OutputExpressionList", "ExpressionList",
           "Subscript", "ModificationExpression", "ForIndices", "ForIndex", "FunctionPartialApplication"},
   ps |-> Values],
  [ns |-> {"Equation", "Statement"}, ps |-> Actions],
  [ns |-> {"Element", "ComponentClause", "ClassDefinition", "ComponentClause1", "ShortClassDefinition",
           "ImportClause", "ExtendsClause"}, ps |-> Parts],
  [ns |-> {"Argument", "ElementModificationOrReplaceable", "ElementModification", "ElementRedeclaration",
           "ElementReplaceable", "InheritanceModification"}, ps |-> Changes] >>
PhrasesFor(n) == IF ~Phrased THEN {} ELSE {Ph(p) : p \in UNION {Families[i].ps : i \in {j \in 1..Len(Families) : n \in Families[j].ns}}}

RECURSIVE Twists(_)
\* the twists of the parts of a sequence or of alternatives
Within(e) ==
  UNION {{[e EXCEPT !.xs = [@ EXCEPT ![i] = t]] : t \in Twists(e.xs[i])} : i \in 1..Len(e.xs)}
Twists(e) ==
  CASE e.o = "T" -> {Gone, Twice(e)}
    [] e.o = "N" -> {Gone, Twice(e)} \cup PhrasesFor(e.n)
    [] e.o = "S" ->
         Within(e)
         \cup {Sq([e.xs EXCEPT ![i] = e.xs[i + 1], ![i + 1] = e.xs[i]]) : i \in 1..(Len(e.xs) - 1)}
         \cup (IF Len(e.xs) > 1 THEN {Twice(e)} ELSE {})
    [] e.o = "A" -> Within(e)
    [] e.o = "O" -> {Twice(e)} \cup {[e EXCEPT !.x = t] : t \in Twists(e.x)}
    [] e.o = "R" -> {[e EXCEPT !.x = t] : t \in Twists(e.x)}
    [] e.o = "F" -> {e.x} \cup {[e EXCEPT !.x = t] : t \in Twists(e.x)}

Goals == IF Whole THEN Range(Tbl.goals) ELSE Nonterminals
Entry(gl) == IF Whole THEN "StoredDefinition" ELSE gl
AllTwists == [n \in Goals |-> SetToSeq({Annotate(t, Tbl.sizes) : t \in Twists(Rules[n])})]
TwistsReady == TLCSet(3, TLCEval(AllTwists))
ASSUME TwistsReady
TwistsOf(n) == TLCGet(3)[n]

Derived(gl, tw, sc) ==
  LET dn == TLCEval(Along(IF Whole THEN Tbl.paths[gl] ELSE <<gl>>, [Start(1, 0, sc) EXCEPT !.tw = <<TwistsOf(gl)[tw]>>]))
  IN [ks |-> TLCEval(KindsOfTree(TreeOf(dn))), ar |-> dn.s.ar]

Init == /\ goal \in Goals
        /\ twist \in 1..Len(TwistsOf(goal))
        /\ script = <<>> /\ dev = 0
        /\ \E m \in {Derived(goal, twist, <<>>)} : kinds = m.ks /\ arity = m.ar
        /\ pos = 0 /\ state = Start0(Entry(goal)) /\ bad = 0

Choice ==
  /\ pos = 0 /\ bad = 0 /\ dev < MaxDev
  /\ \E p \in (Len(script) + 1)..Len(arity) :
       \E c \in 1..(arity[p] - 1) :
         LET sc == [i \in 1..p |-> IF i <= Len(script) THEN script[i] ELSE IF i < p THEN 0 ELSE c]
             m == TLCEval(Derived(goal, twist, sc))
         IN script' = sc /\ kinds' = m.ks /\ arity' = m.ar
  /\ dev' = dev + 1
  /\ UNCHANGED <<goal, twist, pos, state, bad>>

Name == goal \o "/" \o ToString(twist) \o FoldLeft(LAMBDA acc, x : acc \o "." \o ToString(x), "", script)

\* the document is read in one step: up to the first token that cannot be there
ReadAll ==
  /\ pos = 0 /\ bad = 0
  /\ LET b == TLCEval(FirstWrong(Entry(goal), kinds))
     IN /\ bad' = b
        /\ pos' = Len(kinds) + 1
        /\ Emit => PrintT("CASE " \o ToJson([id |-> Name, entry |-> Entry(goal), k |-> kinds, bad |-> b]))
  /\ UNCHANGED <<goal, twist, script, dev, arity, kinds, state>>
Next == Choice \/ ReadAll

\* most twists are wrong, and none is wrong after its end
VerdictInRange == bad \in 0..(Len(kinds) + 1)
=============================================================================
