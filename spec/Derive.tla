------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Derivations of the grammar, as functions of a "choice source": every    *)
(* optional part, alternative and repetition asks the source.  A source is *)
(* either a script (a finite sequence of choices, followed by the smallest *)
(* choice for ever) or a pseudo-random generator with a token budget.      *)
(*                                                                         *)
(* A derivation is steered: it starts at StoredDefinition, goes down the   *)
(* shortest path to the goal nonterminal with the smallest surroundings,   *)
(* and consults the source only inside the goal.  So every nonterminal is  *)
(* exercised in a whole source file.                                       *)
(*                                                                         *)
(* Parse tree (as mofmt prunes it: no node without tokens):                *)
(*   leaf  [n |-> "", k |-> token kind, a |-> i, z |-> i]   token number i *)
(*   node  [n |-> nonterminal, c |-> children, a |-> first, z |-> last]    *)
(***************************************************************************)
EXTENDS Grammar, Rand

(* State of a derivation: r generator, t tokens so far, f budget left,     *)
(* sc script left, ar arities of the choices met, cs choices made, md who  *)
(* makes them ("off": the smallest one is made), am who makes them outside *)
(* the goal, mx how often a random source repeats at most, tw what the goal *)
(* is derived from instead of its rule (<<>>: its rule), fl whether parts  *)
(* of the goal that may be empty are filled, bg (if not 0) the budget of   *)
(* each part of the goal, whose rule is then gone through at random, lo    *)
(* and hi the tokens of the goal, nt the nonterminal whose rule this is.   *)
Start(r, f, sc) == [r |-> r, t |-> 0, f |-> f, sc |-> sc, ar |-> <<>>, cs |-> <<>>, md |-> "off",
                    am |-> "off", mx |-> 3, tw |-> <<>>, fl |-> FALSE, bg |-> 0, lo |-> 1, hi |-> 0,
                    nt |-> ""]

\* "own": the script decides in the rule of the goal, not further down
\* "fill": in a part that may be empty, and is not to be
\* "rule": in the rule of the goal, all choices are equally likely
Scripted(s) == s.md \in {"script", "own"}
Random(s) == s.md = "rnd"

(* A random source may overdraw its budget a little, so that what comes    *)
(* last is not always the smallest.  Expressions are not made much longer: *)
(* they have many levels, and would take all of it.                        *)
Credit == 25
Inside == {"Expression", "SimpleExpression", "LogicalExpression", "LogicalTerm", "LogicalFactor", "Relation",
           "ArithmeticExpression", "Term", "Factor", "Primary", "ComponentReference", "ExpressionList",
           "OutputExpressionList", "FunctionArguments", "FunctionArgumentsNonFirst", "ArrayArguments",
           "ArrayArgumentsNonFirst", "NamedArguments", "ArraySubscripts", "Subscript"}

(* Choose(s, n, w) = <<choice in 0..(n-1), next state>>; 0 is the smallest *)
(* choice and w (0..8) eighths is how often a random source prefers it.    *)
Choose(s, n, w) ==
  IF s.md \in {"off", "fill"} \/ n = 1 THEN <<0, s>>
  ELSE IF s.md = "rule" THEN LET r1 == Rnd(s.r) IN <<Draw(r1, n), [s EXCEPT !.r = Rnd(r1)]>>
  ELSE IF Scripted(s)
  THEN LET ch == IF s.sc = <<>> THEN 0 ELSE s.sc[1]
       IN <<ch, [s EXCEPT !.sc = IF @ = <<>> THEN @ ELSE Tail(@),
                          !.ar = Append(@, n), !.cs = Append(@, ch)]>>
  ELSE IF s.f <= -Credit THEN <<0, s>>
  ELSE IF s.f <= 0
  THEN LET r1 == Rnd(s.r)
           r2 == Rnd(r1)
       IN <<IF Draw(r1, IF s.nt \in Inside THEN 30 ELSE 6) = 0 THEN Draw(r2, n) ELSE 0, [s EXCEPT !.r = r2]>>
  ELSE LET r1 == Rnd(s.r)
           r2 == Rnd(r1)
       IN IF Draw(r1, 8) < w THEN <<0, [s EXCEPT !.r = r2]>>
          ELSE <<Draw(r2, n), [s EXCEPT !.r = r2]>>

(* How often to repeat.                                                    *)
Times(s) ==
  IF s.md = "fill" THEN <<1, s>>
  ELSE IF ~Random(s) \/ s.f <= 0 \/ s.mx <= 3 THEN Choose(s, 4, 1)
  ELSE LET r1 == Rnd(s.r)
           r2 == Rnd(r1)
       IN IF Draw(r1, 3) = 0 THEN <<Draw(r2, s.mx + 1), [s EXCEPT !.r = r2]>>
          ELSE Choose([s EXCEPT !.r = r2], 4, 1)

(* A random source divides its budget, so that what comes first does not   *)
(* use it up: Share(s) is the state for a part, Remain(s, d) the state after  *)
(* the part was derived as d.                                              *)
Share(s) ==
  IF ~Random(s) \/ s.f < 3 THEN s
  ELSE LET r1 == Rnd(s.r) IN [s EXCEPT !.r = r1, !.f = 1 + Draw(r1, s.f)]
Remain(s, d) ==
  IF ~Random(s) \/ s.f < 3 THEN d
  ELSE [d EXCEPT !.s.f = s.f - (d.s.t - s.t)]

Leaf(k, i) == [n |-> "", k |-> k, a |-> i, z |-> i]
Node(n, cs) == [n |-> n, c |-> cs, a |-> cs[1].a, z |-> cs[Len(cs)].z]

Nothing(s) == [c |-> <<>>, s |-> s]

RECURSIVE FirstKind(_)
FirstKind(x) == IF x.n = "" THEN x.k ELSE FirstKind(x.c[1])

(* The token kinds of a forest of trees, from left to right. *)
RECURSIVE Yield(_)
Yield(x) == IF x.n = "" THEN <<x.k>>
            ELSE FoldLeft(LAMBDA acc, y : acc \o Yield(y), <<>>, x.c)

RECURSIVE Der(_, _, _)
RECURSIVE DerRep(_, _, _, _)

(* Derive children for expression e; path: nonterminals still to go down   *)
(* to the goal (<<>> when off the path or inside the goal).                *)
Der(e, s, path) ==
  CASE e.o = "T" ->
         [c |-> <<Leaf(e.k, s.t + 1)>>, s |-> [s EXCEPT !.t = @ + 1, !.f = @ - 1]]
    [] e.o = "N" ->
         LET on == path # <<>> /\ path[1] = e.n
             goal == on /\ Len(path) = 1
             inner == IF s.md = "rule" THEN "rnd" ELSE IF s.md \notin {"own", "fill"} THEN s.md
                      ELSE IF Tbl.null[e.n] /\ s.fl THEN "fill" ELSE "off"
             part == s.md = "rule"
             r1 == Rnd(s.r)
             md == IF ~goal THEN inner
                   ELSE IF s.bg > 0 THEN "rule"
                   ELSE IF s.f > 0 THEN "rnd" ELSE IF s.tw # <<>> THEN "own" ELSE "script"
             rule == IF goal /\ s.tw # <<>> THEN s.tw[1] ELSE Tbl.rules[e.n]
             d == Der(rule, IF part THEN [s EXCEPT !.md = md, !.nt = e.n, !.r = Rnd(r1), !.f = Draw(r1, s.bg)]
                            ELSE [s EXCEPT !.md = md, !.nt = e.n], IF on THEN Tail(path) ELSE <<>>)
             s2 == IF goal THEN [d.s EXCEPT !.md = s.am, !.lo = s.t + 1, !.hi = d.s.t]
                   ELSE IF part THEN [d.s EXCEPT !.md = "rule", !.f = s.f]
                   ELSE [d.s EXCEPT !.md = IF s.md \in {"own", "fill"} THEN s.md ELSE @]
             s1 == [s2 EXCEPT !.nt = s.nt]
         IN IF d.c = <<>> THEN Nothing(s1)
            ELSE [c |-> <<Node(e.n, d.c)>>, s |-> s1]
    [] e.o = "S" ->
         LET j == IF path = <<>> THEN 0
                  ELSE LET is == {i \in 1..Len(e.xs) : path[1] \in e.xs[i].ms}
                       IN IF is = {} THEN 0 ELSE Least(is)
             step(acc, i) ==
               LET s0 == IF i = Len(e.xs) THEN acc.s ELSE Share(acc.s)
                   d0 == Der(e.xs[i], s0, IF i = j THEN path ELSE <<>>)
                   d == IF i = Len(e.xs) THEN d0 ELSE Remain(acc.s, d0)
               IN [c |-> acc.c \o d.c, s |-> d.s]
         IN FoldLeft(step, Nothing(s), [i \in 1..Len(e.xs) |-> i])
    [] e.o = "A" ->
         IF path # <<>> /\ path[1] \in e.ms
         THEN Der(e.xs[Least({i \in 1..Len(e.xs) : path[1] \in e.xs[i].ms})], s, path)
         ELSE LET p == Choose(s, Len(e.xs), 0)
                  \* choice 0 is the smallest alternative, the others follow in order
                  i == IF p[1] = 0 THEN e.m ELSE IF p[1] < e.m THEN p[1] ELSE p[1] + 1
              IN Der(e.xs[i], p[2], <<>>)
    [] e.o = "O" ->
         IF path # <<>> /\ path[1] \in e.ms THEN Der(e.x, s, path)
         ELSE LET p == IF s.md = "fill" THEN <<1, s>> ELSE Choose(s, 2, 2)
              IN IF p[1] = 0 THEN Nothing(p[2]) ELSE Der(e.x, p[2], <<>>)
    [] e.o = "R" ->
         IF path # <<>> /\ path[1] \in e.ms THEN Der(e.x, s, path)
         ELSE LET p == Times(s) IN DerRep(e.x, p[1], Nothing(p[2]), 1)
    [] e.o = "F" ->
         LET d == Der(e.x, s, path)
         IN IF d.c = <<>> \/ ~(FirstKind(d.c[1]) \in e.ks) THEN d
            ELSE \* the guard forbids it: the smallest derivation instead
                 LET m == Der(e.x, [s EXCEPT !.md = "off", !.f = -Credit, !.sc = <<>>, !.bg = 0], path)
                 IN [c |-> m.c, s |-> [m.s EXCEPT !.md = d.s.md, !.bg = s.bg, !.ar = d.s.ar, !.cs = d.s.cs,
                                                  !.sc = d.s.sc, !.r = d.s.r, !.f = d.s.f]]
    [] OTHER -> Nothing(s)

DerRep(x, n, acc, i) ==
  IF i > n THEN acc
  ELSE IF Random(acc.s) /\ acc.s.f <= 0 /\ i > 3 THEN acc
  ELSE LET d == IF i = n THEN Der(x, acc.s, <<>>) ELSE Remain(acc.s, Der(x, Share(acc.s), <<>>))
       IN DerRep(x, n, [c |-> acc.c \o d.c, s |-> d.s], i + 1)

(* A derivation from the first nonterminal of the path.                    *)
Along(path, start) == Der([o |-> "N", n |-> path[1], ms |-> {path[1]}], start, path)

(* The derivation of a whole file with the given goal.                     *)
ScriptDerivation(goal, script) == Along(Tbl.paths[goal], Start(1, 0, script))
\* the script decides in the rule of the goal only
OwnDerivation(path, script, fill) ==
  Along(path, [Start(1, 0, script) EXCEPT !.tw = <<Tbl.rules[path[Len(path)]]>>, !.fl = fill])
RandomDerivation(goal, r, budget) == Along(Tbl.paths[goal], Start(r, budget, <<>>))
\* the parts of the goal do not take each other's budget
RuleDerivation(path, r, budget) == Along(path, [Start(r, 0, <<>>) EXCEPT !.bg = budget])
\* with long lists
LongDerivation(goal, r, budget, most) ==
  Along(Tbl.paths[goal], [Start(r, budget, <<>>) EXCEPT !.mx = most])

(* A deep document: the path is a random walk through the grammar.         *)
RECURSIVE Walk(_, _, _)
Walk(path, r, left) ==
  LET next == Tbl.onward[path[Len(path)]]
      r1 == Rnd(r)
  IN IF left = 0 THEN path ELSE Walk(Append(path, next[1 + Draw(r1, Len(next))]), r1, left - 1)
DeepDerivation(r, length, budget) ==
  Along(Walk(<<"StoredDefinition">>, r, length),
        [Start(Rnd(r), budget, <<>>) EXCEPT !.md = IF budget > 0 THEN "rnd" ELSE "off",
                                            !.am = IF budget > 0 THEN "rnd" ELSE "off"])
=============================================================================
