------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The concrete syntax of Modelica (Modelica Specification 3.6/3.7,        *)
(* appendix A) as data, written from the language specification and not    *)
(* from mofmt's parser.  Every nonterminal is named after the production   *)
(* (and so after mofmt's SyntaxKind).                                      *)
(*                                                                         *)
(* Expressions of the notation:                                            *)
(*   Tk(k)   terminal of token kind k        Nt(n)  nonterminal n            *)
(*   Sq(xs)  sequence   Al(xs)  alternatives  Op(x)  optional   Rp(x) repeated *)
(*   Gd(ks,x) x, but not starting with a token of a kind in ks              *)
(*                                                                         *)
(* Deliberate deviations of mofmt from the language specification that the *)
(* specification follows (they are documented in mofmt's sources):         *)
(*   - Equation: any simple-expression may stand alone (the language only  *)
(*     allows component-reference function-call-args there).               *)
(*   - Modification accepts the deprecated ":=".                           *)
(*   - an equation or statement list ends at the first `end', `initial',.. *)
(*     so an equation cannot start with those (written with Gd).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Tk(k)     == [o |-> "T", k |-> k]
Nt(n)     == [o |-> "N", n |-> n]
Sq(xs)    == [o |-> "S", xs |-> xs]
Al(xs)    == [o |-> "A", xs |-> xs]
Op(x)     == [o |-> "O", x |-> x]
Rp(x)     == [o |-> "R", x |-> x]
Gd(ks, x) == [o |-> "F", ks |-> ks, x |-> x]
\* x { sep x }
Ls(x, sep) == Sq(<<x, Rp(Sq(<<Tk(sep), x>>))>>)
Parens(x) == Sq(<<Tk("LParen"), x, Tk("RParen")>>)

Ident == Tk("Identifier")

\* tokens that end an equation or statement list of a section
SectionEnd == {"Initial", "End"}
EqSec(n)  == Rp(Sq(<<Gd(SectionEnd, Nt(n)), Tk("Semicolon")>>))
EqBody(n) == Rp(Sq(<<Gd({"End"}, Nt(n)), Tk("Semicolon")>>))

IfRule(n) == Sq(<<Tk("If"), Nt("Expression"), Tk("Then"), EqBody(n),
                 Rp(Sq(<<Tk("ElseIf"), Nt("Expression"), Tk("Then"), EqBody(n)>>)),
                 Op(Sq(<<Tk("Else"), EqBody(n)>>)), Tk("End"), Tk("If")>>)
ForRule(n) == Sq(<<Tk("For"), Nt("ForIndices"), Tk("Loop"), EqBody(n), Tk("End"), Tk("For")>>)
WhenRule(n) == Sq(<<Tk("When"), Nt("Expression"), Tk("Then"), EqBody(n),
                   Rp(Sq(<<Tk("ElseWhen"), Nt("Expression"), Tk("Then"), EqBody(n)>>)),
                   Tk("End"), Tk("When")>>)

Rules == TLCEval([
  StoredDefinition |->
    Sq(<<Op(Sq(<<Tk("Within"), Op(Nt("Name")), Tk("Semicolon")>>)),
        Rp(Sq(<<Op(Tk("Final")), Nt("ClassDefinition"), Tk("Semicolon")>>))>>),
  ClassDefinition |->
    Sq(<<Op(Tk("Encapsulated")), Nt("ClassPrefixes"), Nt("ClassSpecifier")>>),
  ClassPrefixes |->
    Sq(<<Op(Tk("Partial")),
        Al(<<Tk("Model"), Tk("Class"), Tk("Block"), Tk("Type"), Tk("Package"), Tk("Record"),
            Tk("Connector"), Tk("Function"),
            Sq(<<Tk("Expandable"), Tk("Connector")>>),
            Tk("Operator"), Sq(<<Tk("Operator"), Tk("Record")>>), Sq(<<Tk("Operator"), Tk("Function")>>),
            Sq(<<Tk("Pure"), Tk("Function")>>), Sq(<<Tk("Impure"), Tk("Function")>>),
            Sq(<<Tk("Pure"), Tk("Operator"), Tk("Function")>>),
            Sq(<<Tk("Impure"), Tk("Operator"), Tk("Function")>>)>>)>>),
  ClassSpecifier |->
    Al(<<Nt("LongClassSpecifier"), Nt("ShortClassSpecifier"), Nt("DerClassSpecifier")>>),
  LongClassSpecifier |->
    Sq(<<Al(<<Ident, Sq(<<Tk("Extends"), Ident, Op(Nt("ClassModification"))>>)>>),
        Nt("DescriptionString"), Nt("Composition"), Tk("End"), Ident>>),
  ShortClassSpecifier |->
    Sq(<<Ident, Tk("Equal"),
        Al(<<Sq(<<Nt("BasePrefix"), Nt("TypeSpecifier"), Op(Nt("ArraySubscripts")),
                Op(Nt("ClassModification"))>>),
            Sq(<<Tk("Enumeration"), Parens(Al(<<Nt("EnumList"), Tk("Colon"), Sq(<<>>)>>))>>)>>),
        Nt("Description")>>),
  DerClassSpecifier |->
    Sq(<<Ident, Tk("Equal"), Tk("Der"),
        Parens(Sq(<<Nt("TypeSpecifier"), Tk("Comma"), Ls(Ident, "Comma")>>)), Nt("Description")>>),
  BasePrefix |-> Op(Al(<<Tk("Input"), Tk("Output")>>)),
  EnumList |-> Ls(Nt("EnumerationLiteral"), "Comma"),
  EnumerationLiteral |-> Sq(<<Ident, Nt("Description")>>),
  Composition |->
    Sq(<<Nt("ElementList"),
        Rp(Al(<<Nt("EquationSection"), Nt("AlgorithmSection"),
              Sq(<<Tk("Public"), Nt("ElementList")>>),
              Sq(<<Tk("Protected"), Nt("ElementList")>>)>>)),
        Op(Sq(<<Tk("External"), Op(Nt("LanguageSpecification")), Op(Nt("ExternalFunctionCall")),
              Op(Nt("AnnotationClause")), Tk("Semicolon")>>)),
        Op(Sq(<<Nt("AnnotationClause"), Tk("Semicolon")>>))>>),
  LanguageSpecification |-> Tk("String"),
  ExternalFunctionCall |->
    Sq(<<Op(Sq(<<Nt("ComponentReference"), Tk("Equal")>>)), Ident, Parens(Op(Nt("ExpressionList")))>>),
  ElementList |-> Rp(Sq(<<Nt("Element"), Tk("Semicolon")>>)),
  Element |->
    Al(<<Sq(<<Op(Tk("Redeclare")), Op(Tk("Final")), Op(Tk("Inner")), Op(Tk("Outer")),
            Al(<<Nt("ComponentClause"), Nt("ClassDefinition"),
                Sq(<<Tk("Replaceable"), Al(<<Nt("ComponentClause"), Nt("ClassDefinition")>>),
                    Op(Sq(<<Nt("ConstrainingClause"), Nt("Description")>>))>>)>>)>>),
        Nt("ImportClause"), Nt("ExtendsClause")>>),
  ImportClause |->
    Sq(<<Tk("Import"),
        Al(<<Nt("Name"),
            Sq(<<Ident, Tk("Equal"), Nt("Name")>>),
            Sq(<<Nt("Name"), Tk("DotStar")>>),
            Sq(<<Nt("Name"), Tk("Dot"), Tk("LCurly"), Nt("ImportList"), Tk("RCurly")>>)>>),
        Nt("Description")>>),
  ImportList |-> Ls(Ident, "Comma"),
  ExtendsClause |->
    Sq(<<Tk("Extends"), Nt("TypeSpecifier"), Op(Nt("ClassOrInheritanceModification")),
        Op(Nt("AnnotationClause"))>>),
  ConstrainingClause |->
    Sq(<<Tk("Constrainedby"), Nt("TypeSpecifier"), Op(Nt("ClassModification"))>>),
  ClassOrInheritanceModification |->
    Parens(Op(Nt("ArgumentOrInheritanceModificationList"))),
  ArgumentOrInheritanceModificationList |->
    Ls(Al(<<Nt("Argument"), Nt("InheritanceModification")>>), "Comma"),
  InheritanceModification |-> Sq(<<Tk("Break"), Al(<<Ident, Nt("ConnectEquation")>>)>>),
  ComponentClause |->
    Sq(<<Nt("TypePrefix"), Nt("TypeSpecifier"), Op(Nt("ArraySubscripts")), Nt("ComponentList")>>),
  TypePrefix |->
    Sq(<<Op(Al(<<Tk("Flow"), Tk("Stream")>>)),
        Op(Al(<<Tk("Parameter"), Tk("Discrete"), Tk("Constant")>>)),
        Op(Al(<<Tk("Input"), Tk("Output")>>))>>),
  ComponentList |-> Ls(Nt("ComponentDeclaration"), "Comma"),
  ComponentDeclaration |->
    Sq(<<Nt("Declaration"), Op(Nt("ConditionAttribute")), Nt("Description")>>),
  ConditionAttribute |-> Sq(<<Tk("If"), Nt("Expression")>>),
  Declaration |-> Sq(<<Ident, Op(Nt("ArraySubscripts")), Op(Nt("Modification"))>>),
  Modification |->
    Al(<<Sq(<<Tk("Equal"), Nt("ModificationExpression")>>),
        Sq(<<Nt("ClassModification"), Op(Sq(<<Tk("Equal"), Nt("ModificationExpression")>>))>>),
        Sq(<<Tk("Assign"), Nt("ModificationExpression")>>)>>),
  ModificationExpression |-> Al(<<Nt("Expression"), Tk("Break")>>),
  ClassModification |-> Parens(Op(Nt("ArgumentList"))),
  ArgumentList |-> Ls(Nt("Argument"), "Comma"),
  Argument |-> Al(<<Nt("ElementModificationOrReplaceable"), Nt("ElementRedeclaration")>>),
  ElementModificationOrReplaceable |->
    Sq(<<Op(Tk("Each")), Op(Tk("Final")), Al(<<Nt("ElementModification"), Nt("ElementReplaceable")>>)>>),
  ElementModification |-> Sq(<<Nt("Name"), Op(Nt("Modification")), Nt("DescriptionString")>>),
  ElementRedeclaration |->
    Sq(<<Tk("Redeclare"), Op(Tk("Each")), Op(Tk("Final")),
        Al(<<Nt("ComponentClause1"), Nt("ShortClassDefinition"), Nt("ElementReplaceable")>>)>>),
  ElementReplaceable |->
    Sq(<<Tk("Replaceable"), Al(<<Nt("ComponentClause1"), Nt("ShortClassDefinition")>>),
        Op(Nt("ConstrainingClause"))>>),
  ComponentClause1 |->
    Sq(<<Nt("TypePrefix"), Nt("TypeSpecifier"), Nt("ComponentDeclaration1")>>),
  ComponentDeclaration1 |-> Sq(<<Nt("Declaration"), Nt("Description")>>),
  ShortClassDefinition |-> Sq(<<Nt("ClassPrefixes"), Nt("ShortClassSpecifier")>>),
  EquationSection |-> Sq(<<Op(Tk("Initial")), Tk("Equation"), EqSec("Equation")>>),
  AlgorithmSection |-> Sq(<<Op(Tk("Initial")), Tk("Algorithm"), EqSec("Statement")>>),
  Equation |->
    Sq(<<Al(<<Sq(<<Nt("SimpleExpression"), Op(Sq(<<Tk("Equal"), Nt("Expression")>>))>>),
            Nt("IfEquation"), Nt("ForEquation"), Nt("ConnectEquation"), Nt("WhenEquation")>>),
        Nt("Description")>>),
  Statement |->
    Sq(<<Al(<<Sq(<<Nt("ComponentReference"),
                Al(<<Sq(<<Tk("Assign"), Nt("Expression")>>), Nt("FunctionCallArgs")>>)>>),
            Sq(<<Parens(Nt("OutputExpressionList")), Tk("Assign"), Nt("ComponentReference"),
                Nt("FunctionCallArgs")>>),
            Tk("Break"), Tk("Return"),
            Nt("IfStatement"), Nt("ForStatement"), Nt("WhileStatement"), Nt("WhenStatement")>>),
        Nt("Description")>>),
  IfEquation |-> IfRule("Equation"),
  IfStatement |-> IfRule("Statement"),
  ForEquation |-> ForRule("Equation"),
  ForStatement |-> ForRule("Statement"),
  ForIndices |-> Ls(Nt("ForIndex"), "Comma"),
  ForIndex |-> Sq(<<Ident, Op(Sq(<<Tk("In"), Nt("Expression")>>))>>),
  WhileStatement |->
    Sq(<<Tk("While"), Nt("Expression"), Tk("Loop"), EqBody("Statement"), Tk("End"), Tk("While")>>),
  WhenEquation |-> WhenRule("Equation"),
  WhenStatement |-> WhenRule("Statement"),
  ConnectEquation |->
    Sq(<<Tk("Connect"),
        Parens(Sq(<<Nt("ComponentReference"), Tk("Comma"), Nt("ComponentReference")>>))>>),
  Expression |->
    Al(<<Nt("SimpleExpression"),
        Sq(<<Tk("If"), Nt("Expression"), Tk("Then"), Nt("Expression"),
            Rp(Sq(<<Tk("ElseIf"), Nt("Expression"), Tk("Then"), Nt("Expression")>>)),
            Tk("Else"), Nt("Expression")>>)>>),
  SimpleExpression |->
    Sq(<<Nt("LogicalExpression"),
        Op(Sq(<<Tk("Colon"), Nt("LogicalExpression"),
              Op(Sq(<<Tk("Colon"), Nt("LogicalExpression")>>))>>))>>),
  LogicalExpression |-> Ls(Nt("LogicalTerm"), "Or"),
  LogicalTerm |-> Ls(Nt("LogicalFactor"), "And"),
  LogicalFactor |-> Sq(<<Op(Tk("Not")), Nt("Relation")>>),
  Relation |->
    Sq(<<Nt("ArithmeticExpression"),
        Op(Sq(<<Nt("RelationalOperator"), Nt("ArithmeticExpression")>>))>>),
  RelationalOperator |->
    Al(<<Tk("Les"), Tk("Leq"), Tk("Gre"), Tk("Geq"), Tk("Eq"), Tk("Neq")>>),
  ArithmeticExpression |->
    Sq(<<Op(Nt("AddOperator")), Nt("Term"), Rp(Sq(<<Nt("AddOperator"), Nt("Term")>>))>>),
  AddOperator |-> Al(<<Tk("Plus"), Tk("Minus"), Tk("DotPlus"), Tk("DotMinus")>>),
  Term |-> Sq(<<Nt("Factor"), Rp(Sq(<<Nt("MulOperator"), Nt("Factor")>>))>>),
  MulOperator |-> Al(<<Tk("Star"), Tk("Slash"), Tk("DotStar"), Tk("DotSlash")>>),
  Factor |-> Sq(<<Nt("Primary"), Op(Sq(<<Al(<<Tk("Flex"), Tk("DotFlex")>>), Nt("Primary")>>))>>),
  Primary |->
    Al(<<Sq(<<Nt("ComponentReference"), Op(Nt("FunctionCallArgs"))>>),
        Tk("UInt"), Tk("UReal"), Tk("String"), Tk("Bool"), Tk("End"),
        Sq(<<Al(<<Tk("Der"), Tk("Initial"), Tk("Pure")>>), Nt("FunctionCallArgs")>>),
        Sq(<<Parens(Nt("OutputExpressionList")), Op(Nt("ArraySubscripts"))>>),
        Sq(<<Tk("LBracket"), Ls(Nt("ExpressionList"), "Semicolon"), Tk("RBracket")>>),
        Sq(<<Tk("LCurly"), Nt("ArrayArguments"), Tk("RCurly")>>)>>),
  TypeSpecifier |-> Sq(<<Op(Tk("Dot")), Nt("Name")>>),
  Name |-> Ls(Ident, "Dot"),
  ComponentReference |->
    Sq(<<Op(Tk("Dot")), Ls(Sq(<<Ident, Op(Nt("ArraySubscripts"))>>), "Dot")>>),
  ResultReference |->
    Al(<<Nt("ComponentReference"),
        Sq(<<Tk("Der"), Parens(Sq(<<Nt("ComponentReference"),
                                 Op(Sq(<<Tk("Comma"), Tk("UInt")>>))>>))>>)>>),
  FunctionCallArgs |-> Parens(Op(Nt("FunctionArguments"))),
  FunctionArguments |->
    Al(<<Sq(<<Nt("Expression"),
            Op(Al(<<Sq(<<Tk("Comma"), Nt("FunctionArgumentsNonFirst")>>),
                  Sq(<<Tk("For"), Nt("ForIndices")>>)>>))>>),
        Sq(<<Nt("FunctionPartialApplication"),
            Op(Sq(<<Tk("Comma"), Nt("FunctionArgumentsNonFirst")>>))>>),
        Nt("NamedArguments")>>),
  FunctionArgumentsNonFirst |->
    Al(<<Sq(<<Nt("FunctionArgument"), Op(Sq(<<Tk("Comma"), Nt("FunctionArgumentsNonFirst")>>))>>),
        Nt("NamedArguments")>>),
  ArrayArguments |->
    Sq(<<Nt("Expression"),
        Op(Al(<<Sq(<<Tk("Comma"), Nt("ArrayArgumentsNonFirst")>>),
              Sq(<<Tk("For"), Nt("ForIndices")>>)>>))>>),
  ArrayArgumentsNonFirst |->
    Sq(<<Nt("Expression"), Op(Sq(<<Tk("Comma"), Nt("ArrayArgumentsNonFirst")>>))>>),
  NamedArguments |-> Sq(<<Nt("NamedArgument"), Op(Sq(<<Tk("Comma"), Nt("NamedArguments")>>))>>),
  NamedArgument |-> Sq(<<Ident, Tk("Equal"), Nt("FunctionArgument")>>),
  FunctionArgument |-> Al(<<Nt("Expression"), Nt("FunctionPartialApplication")>>),
  FunctionPartialApplication |->
    Sq(<<Tk("Function"), Nt("TypeSpecifier"), Parens(Op(Nt("NamedArguments")))>>),
  OutputExpressionList |->
    Sq(<<Op(Nt("Expression")), Rp(Sq(<<Tk("Comma"), Op(Nt("Expression"))>>))>>),
  ExpressionList |-> Ls(Nt("Expression"), "Comma"),
  ArraySubscripts |-> Sq(<<Tk("LBracket"), Ls(Nt("Subscript"), "Comma"), Tk("RBracket")>>),
  Subscript |-> Al(<<Nt("Expression"), Tk("Colon")>>),
  Description |-> Sq(<<Nt("DescriptionString"), Op(Nt("AnnotationClause"))>>),
  DescriptionString |-> Op(Ls(Tk("String"), "Plus")),
  AnnotationClause |-> Sq(<<Tk("Annotation"), Nt("ClassModification")>>)
])

Nonterminals == DOMAIN Rules

---------------------------------------------------------------------------
(* Nullable and FIRST, by fixpoint iteration.                              *)

RECURSIVE ExprNullable(_, _)
ExprNullable(e, tbl) ==
  CASE e.o = "T" -> FALSE
    [] e.o = "N" -> tbl[e.n]
    [] e.o = "S" -> \A i \in 1..Len(e.xs) : ExprNullable(e.xs[i], tbl)
    [] e.o = "A" -> \E i \in 1..Len(e.xs) : ExprNullable(e.xs[i], tbl)
    [] e.o \in {"O", "R"} -> TRUE
    [] e.o = "F" -> ExprNullable(e.x, tbl)

RECURSIVE NullFix(_)
NullFix(tbl) ==
  LET nxt == TLCEval([n \in Nonterminals |-> ExprNullable(Rules[n], tbl)])
  IN IF nxt = tbl THEN tbl ELSE NullFix(nxt)

NullTable == NullFix([n \in Nonterminals |-> FALSE])

(* What an expression can start with, one level deep: its terminals and    *)
(* its nonterminals.  No production starts with a guarded (F) expression.  *)
RECURSIVE Heads(_, _)
Heads(e, null) ==
  CASE e.o \in {"T", "N"} -> {e}
    [] e.o = "S" ->
         UNION {Heads(e.xs[i], null) :
                i \in {j \in 1..Len(e.xs) : \A h \in 1..(j - 1) : ExprNullable(e.xs[h], null)}}
    [] e.o = "A" -> UNION {Heads(e.xs[i], null) : i \in 1..Len(e.xs)}
    [] OTHER -> Heads(e.x, null)

RECURSIVE FirstFix(_, _, _)
FirstFix(tbl, ts, ns) ==
  LET nxt == TLCEval([n \in Nonterminals |-> ts[n] \cup UNION {tbl[m] : m \in ns[n]}])
  IN IF nxt = tbl THEN tbl ELSE FirstFix(nxt, ts, ns)

FirstTable ==
  LET null == TLCEval(NullTable)
      hd == TLCEval([n \in Nonterminals |-> Heads(Rules[n], null)])
      ts == TLCEval([n \in Nonterminals |-> {h.k : h \in {x \in hd[n] : x.o = "T"}}])
      ns == TLCEval([n \in Nonterminals |-> {h.n : h \in {x \in hd[n] : x.o = "N"}}])
  IN FirstFix(ts, ts, ns)

RECURSIVE ExprFirst(_, _, _)
ExprFirst(e, null, first) ==
  CASE e.o = "T" -> {e.k}
    [] e.o = "N" -> first[e.n]
    [] e.o = "S" ->
         UNION {ExprFirst(e.xs[i], null, first) :
                i \in {j \in 1..Len(e.xs) : \A h \in 1..(j - 1) : ExprNullable(e.xs[h], null)}}
    [] e.o = "A" -> UNION {ExprFirst(e.xs[i], null, first) : i \in 1..Len(e.xs)}
    [] e.o \in {"O", "R"} -> ExprFirst(e.x, null, first)
    [] e.o = "F" -> ExprFirst(e.x, null, first) \ e.ks

(* Every token kind that occurs in the grammar. *)
RECURSIVE KindsOf(_)
KindsOf(e) ==
  CASE e.o = "T" -> {e.k}
    [] e.o = "N" -> {}
    [] e.o \in {"S", "A"} -> UNION {KindsOf(e.xs[i]) : i \in 1..Len(e.xs)}
    [] OTHER -> KindsOf(e.x)
Kinds == UNION {KindsOf(Rules[n]) : n \in Nonterminals}

---------------------------------------------------------------------------
(* The shortest chain of productions that leads from the start symbol to a *)
(* nonterminal: Path(n) = <<StoredDefinition, ..., n>>.                    *)

RECURSIVE Mentions(_)
Mentions(e) ==
  CASE e.o = "T" -> {}
    [] e.o = "N" -> {e.n}
    [] e.o \in {"S", "A"} -> UNION {Mentions(e.xs[i]) : i \in 1..Len(e.xs)}
    [] OTHER -> Mentions(e.x)
MentionTable == TLCEval([n \in Nonterminals |-> Mentions(Rules[n])])

RECURSIVE PathFix(_, _, _)
PathFix(mt, paths, frontier) ==
  LET new == TLCEval(UNION {mt[p] : p \in frontier} \ DOMAIN paths)
      add == TLCEval([c \in new |->
               Append(paths[CHOOSE p \in frontier : c \in mt[p]], c)])
  IN IF new = {} THEN paths ELSE PathFix(mt, TLCEval(paths @@ add), new)
PathsFrom(root) ==
  LET mt == TLCEval(MentionTable) IN PathFix(mt, [n \in {root} |-> <<root>>], {root})
Paths == PathsFrom("StoredDefinition")
Reachable == DOMAIN Paths

---------------------------------------------------------------------------
(* Sizes of the smallest derivations, and the rules annotated with, for    *)
(* every choice, the alternative that has the smallest one (field m) and   *)
(* with the nonterminals below every expression (field ms).                *)

Big == 1000
Least(set) == CHOOSE x \in set : \A y \in set : x <= y

RECURSIVE ExprSize(_, _)
ExprSize(e, sz) ==
  CASE e.o = "T" -> 1
    [] e.o = "N" -> sz[e.n]
    [] e.o = "S" ->
         LET t == FoldLeft(LAMBDA acc, x : acc + ExprSize(x, sz), 0, e.xs)
         IN IF t > Big THEN Big ELSE t
    [] e.o = "A" -> Least({ExprSize(e.xs[i], sz) : i \in 1..Len(e.xs)})
    [] e.o \in {"O", "R"} -> 0
    [] e.o = "F" -> ExprSize(e.x, sz)

RECURSIVE SizeFix(_)
SizeFix(sz) ==
  LET nxt == TLCEval([n \in Nonterminals |-> ExprSize(Rules[n], sz)])
  IN IF nxt = sz THEN sz ELSE SizeFix(nxt)

RECURSIVE Annotate(_, _)
Annotate(e, sz) ==
  CASE e.o = "T" -> [o |-> "T", k |-> e.k, ms |-> {}]
    [] e.o = "N" -> [o |-> "N", n |-> e.n, ms |-> {e.n}]
    [] e.o = "S" -> [o |-> "S", xs |-> [i \in 1..Len(e.xs) |-> Annotate(e.xs[i], sz)],
                     ms |-> Mentions(e)]
    [] e.o = "A" ->
         LET best == Least({ExprSize(e.xs[i], sz) : i \in 1..Len(e.xs)})
         IN [o |-> "A", xs |-> [i \in 1..Len(e.xs) |-> Annotate(e.xs[i], sz)],
             ms |-> Mentions(e),
             m |-> CHOOSE i \in 1..Len(e.xs) :
                     /\ ExprSize(e.xs[i], sz) = best
                     /\ \A j \in 1..(i - 1) : ExprSize(e.xs[j], sz) > best]
    [] e.o \in {"O", "R"} -> [o |-> e.o, x |-> Annotate(e.x, sz), ms |-> Mentions(e)]
    [] e.o = "F" -> [o |-> "F", ks |-> e.ks, x |-> Annotate(e.x, sz), ms |-> Mentions(e)]

AnnotatedRules ==
  LET sz == TLCEval(SizeFix([n \in Nonterminals |-> Big]))
  IN [n \in Nonterminals |-> Annotate(Rules[n], sz)]

(* The nonterminals that can be met again below themselves, those that     *)
(* lead to one, and for every nonterminal which of them its rule mentions. *)
RECURSIVE BelowFix(_)
BelowFix(b) ==
  LET nxt == TLCEval([n \in Nonterminals |-> b[n] \cup UNION {b[m] : m \in b[n]}])
  IN IF nxt = b THEN b ELSE BelowFix(nxt)
Onward ==
  LET below == TLCEval(BelowFix(TLCEval(MentionTable)))
      rec == {n \in Nonterminals : n \in below[n]}
  IN [n \in Nonterminals |->
        SetToSeq({m \in MentionTable[n] : m \in rec \/ below[m] \cap rec # {}})]

(* TLC evaluates a constant definition that uses recursive operators again *)
(* at every use, so the tables are computed once, in an ASSUME of the      *)
(* model, and kept in a TLC register.                                      *)
Tables ==
  LET paths == TLCEval(Paths)
  IN [null |-> NullTable, first |-> FirstTable, rules |-> AnnotatedRules, paths |-> paths,
      sizes |-> SizeFix([n \in Nonterminals |-> Big]), onward |-> Onward,
      goals |-> SetToSeq(DOMAIN paths)]
TablesReady == TLCSet(1, TLCEval(Tables))
Tbl == TLCGet(1)
=============================================================================
