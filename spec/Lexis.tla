--------------------------------- MODULE Lexis ---------------------------------
(***************************************************************************)
(* The spelling of Modelica tokens (Modelica Specification, sections 2.2-  *)
(* 2.4 and A.1), used to write abstract documents down and to state what a *)
(* token kind is independently of the names mofmt gives to kinds.          *)
(***************************************************************************)
EXTENDS Sequences, TLC

Punctuation == [
  Comma |-> ",", Dot |-> ".", Semicolon |-> ";", Colon |-> ":", LParen |-> "(", RParen |-> ")",
  LCurly |-> "{", RCurly |-> "}", LBracket |-> "[", RBracket |-> "]", Equal |-> "=",
  Assign |-> ":=", Plus |-> "+", Minus |-> "-", Star |-> "*", Slash |-> "/", Flex |-> "^",
  DotPlus |-> ".+", DotMinus |-> ".-", DotStar |-> ".*", DotSlash |-> "./", DotFlex |-> ".^",
  Gre |-> ">", Geq |-> ">=", Les |-> "<", Leq |-> "<=", Neq |-> "<>", Eq |-> "=="]

Keywords == [
  Not |-> "not", And |-> "and", Or |-> "or", In |-> "in", For |-> "for", If |-> "if",
  Else |-> "else", ElseIf |-> "elseif", Then |-> "then", When |-> "when",
  ElseWhen |-> "elsewhen", While |-> "while", Loop |-> "loop", Break |-> "break",
  Return |-> "return", Partial |-> "partial", Class |-> "class", Operator |-> "operator",
  Expandable |-> "expandable", Model |-> "model", Function |-> "function", Record |-> "record",
  Type |-> "type", Block |-> "block", Connector |-> "connector", Package |-> "package",
  Pure |-> "pure", Impure |-> "impure", End |-> "end", Der |-> "der", Connect |-> "connect",
  Initial |-> "initial", Equation |-> "equation", Algorithm |-> "algorithm",
  Extends |-> "extends", Import |-> "import", Public |-> "public", Protected |-> "protected",
  Within |-> "within", Final |-> "final", Encapsulated |-> "encapsulated",
  Enumeration |-> "enumeration", Input |-> "input", Output |-> "output",
  Redeclare |-> "redeclare", Inner |-> "inner", Outer |-> "outer",
  Replaceable |-> "replaceable", Constrainedby |-> "constrainedby", Flow |-> "flow",
  Stream |-> "stream", Discrete |-> "discrete", Parameter |-> "parameter",
  Constant |-> "constant", Each |-> "each", External |-> "external",
  Annotation |-> "annotation"]

(* Samples of the token kinds that have many spellings.  Those of String   *)
(* are by the number of line ends in them (key: "String0" ..).             *)
Samples == [
  Identifier |-> <<"x", "y1", "_z", "Real", "Abc_9", "endx", "model_", "If", "truely", "e1", "'q id'",
                   "'+'", "'a.b'", "'// no'", "'/* no'", "'\"'", "'it\\'s'", "'end'",
                   "time", "Integer", "assert", "pre", "Modelica", "Documentation", "Icon", "der_x", "x_", "_", "__1",
                   "E5", "annotations", "equation_1", "' '", "'\\\\'", "'\\n\\''", "'time'", "k", "END", "Within",
                   "x234567890_234567890_234567890_234567890_234567890_234567890_234567890">>,
  UInt |-> <<"0", "1", "42", "007", "1234567890123", "18446744073709551616">>,
  UReal |-> <<"1.5", "2.", "3e5", "1.0E-3", "6.02e+23", "0.25E5", "1.e5", "00.10", "99999999999999999999.0">>,
  Bool |-> <<"true", "false">>,
  String0 |-> <<"\"\"", "\"text\"", "\"a // b\"", "\"/* c */\"", "\"  two  blanks \"",
                "\"esc \\\" q\"", "\"back\\\\\"", "\"a\tb \t\"", "\"\t\"", "\"; end x; }\"", "\"'\"",
                "\"%name\"", "\"modelica://A.B/c.png\"", "\"\\n\\t\\\"\\?\"", "\"<b>x</b>\"", "\" \"", "\"//\"", "\"/*\"",
                "\"*/\"", "\"annotation(\"", "\"\\\\\\\"\"", "\"C\"", "\"1.0\"">>,
  String1 |-> <<"\"one\n  two\"", "\"a  \nb\"", "\"\n\"", "\"// x\n*/\"", "\"\ta\n\t\tb\t\"",
                "\"<html>\n</html>\"", "\"\\\n\"", "\"a\\\"\n\\\"b\"", "\"\n  end x;\"">>,
  String2 |-> <<"\"one\ntwo\n three\"", "\"\n\n\"", "\"a\n\n   b\"">>]

Lexis == [punctuation |-> Punctuation, keywords |-> Keywords, samples |-> Samples]
=============================================================================
