------------------------------- MODULE MCScripts -------------------------------
(***************************************************************************)
(* Systematic documents.  A state is a goal nonterminal and a script of    *)
(* choices; a transition takes one more choice that is not the smallest    *)
(* one, after the last one taken (at most MaxDev of them).  So the states  *)
(* are all derivations of every nonterminal with at most MaxDev optional   *)
(* parts, repetitions or alternatives.  Every derivation is laid out       *)
(* plainly and with every shape of gap (all of them, or every Stride-th)   *)
(* at every boundary in and around the goal.                               *)
(* OwnRule: the choices are those of the rule of the goal, and its other   *)
(* parts are as small as can be; those that may be empty all are, or none  *)
(* is (fill).                                                              *)
(***************************************************************************)
EXTENDS Docs
CONSTANTS MaxDev, Stride, Part, Parts, OwnRule, Emit
VARIABLES goal, fill, script, dev, verdict, arity

ASSUME TablesReady

Derived(gl, fl, sc) ==
  TLCEval(IF OwnRule THEN OwnDerivation(Tbl.paths[gl], sc, fl) ELSE ScriptDerivation(gl, sc))

\* line ends are tried everywhere, the other shapes in turn; there are very
\* many scripts of three choices in a rule, so that not all is tried on each
Wanted(sc, key, i, j) ==
  LET many == OwnRule /\ Cardinality({p \in 1..Len(sc) : sc[p] # 0}) > 2
  IN \/ (many => (key + i) % 3 = 0) /\ (j = 3 \/ (OwnRule /\ j = 4))
     \/ j \notin {1, 2} /\ (key + i * 5 + j * 3) % Stride = 0

Hash(gl, fl, sc) ==
  FoldLeft(LAMBDA acc, x : (acc * 31 + x + 7) % 65537, Len(Tbl.paths[gl]) * 97 + Len(sc) + (IF fl THEN 1 ELSE 0), sc)

Layouts(sc, dn, key) ==
  LET t == TreeOf(dn)
      ks == TLCEval(KindsOfTree(t))
      hs == Zeros(ks)
      plain == PlainGaps(ks)
      lo == dn.s.lo
      hi == dn.s.hi
      doc(i, j) == Document(t, ks, [plain EXCEPT ![i] = GapAt(ks, i, Shapes[j])], hs)
      sites == {<<i, j>> \in (lo..(hi + 1)) \X (1..NShapes) : Wanted(sc, key, i, j)}
  IN <<Document(t, ks, plain, hs)>> \o
     [n \in 1..Cardinality(sites) |-> LET p == SetToSeq(sites)[n] IN doc(p[1], p[2])]

\* all verdicts of a state taken together
Both(a, b) ==
  [x \in DOMAIN NoVerdict |-> IF x = "out" THEN <<>> ELSE a[x] /\ b[x]]

Name(gl, fl, sc, n) ==
  (IF fl THEN "full " ELSE IF OwnRule THEN "own " ELSE "") \o gl
  \o FoldLeft(LAMBDA acc, x : acc \o "." \o ToString(x), "", sc) \o "#" \o ToString(n)

Examine(gl, fl, sc) ==
  LET dn == Derived(gl, fl, sc)
      docs == TLCEval(Layouts(sc, dn, Hash(gl, fl, sc)))
      one(acc, n) ==
        LET v == TLCEval(Verdict(docs[n]))
            said == Emit => PrintT("CASE " \o ToJson(Case(Name(gl, fl, sc, n), docs[n], v.out, n = 1)))
        IN IF said THEN Both(acc, v) ELSE acc
  IN [v |-> FoldLeft(one, NoVerdict, [n \in 1..Len(docs) |-> n]), ar |-> dn.s.ar]

Mine(gl, fl, sc) == Hash(gl, fl, sc) % Parts = Part

Visit(gl, fl, sc) ==
  IF Mine(gl, fl, sc) THEN TLCEval(Examine(gl, fl, sc))
  ELSE [v |-> NoVerdict, ar |-> Derived(gl, fl, sc).s.ar]

Init == /\ goal \in Range(Tbl.goals)
        /\ fill \in IF OwnRule /\ \E n \in Mentions(Rules[goal]) : Tbl.null[n] THEN BOOLEAN ELSE {FALSE}
        /\ script = <<>>
        /\ dev = 0
        /\ LET e == Visit(goal, fill, <<>>) IN verdict = e.v /\ arity = e.ar
Next == /\ dev < MaxDev
        /\ \E p \in (Len(script) + 1)..Len(arity) :
             \E c \in 1..(arity[p] - 1) :
               LET sc == [i \in 1..p |-> IF i <= Len(script) THEN script[i]
                                         ELSE IF i < p THEN 0 ELSE c]
                   e == Visit(goal, fill, sc)
               IN script' = sc /\ verdict' = e.v /\ arity' = e.ar
        /\ dev' = dev + 1
        /\ UNCHANGED <<goal, fill>>

IndentationBalanced == verdict.balanced
OneSeparatorPerGap == verdict.separator
CommentsSurvive == verdict.comments
OutputTidy == verdict.tidy
TokensApart == verdict.gluing
LayoutIdempotent == verdict.idempotent
=============================================================================
