-------------------------------- MODULE MCTrace --------------------------------
(***************************************************************************)
(* Checks what mofmt did against the specification (the other models go    *)
(* the opposite way).  A trace is what was recorded for one text:          *)
(*   entry  the start symbol                                               *)
(*   k, h   the tokens                                                     *)
(*   e      the parse events: a rule name (entered), "." (a token),        *)
(*          "X" (the innermost rule is left)                               *)
(*   d      layouts of the same tokens: gaps of the source g, and of the   *)
(*          output o (pieces, indentation after the last line end or -1)   *)
(* A behaviour follows the events of one trace.  A rule may be left when   *)
(* its rule of the grammar can derive the children it has got; that is the *)
(* only condition, so a trace is accepted exactly if its tree is a         *)
(* derivation.  Then every layout is compared with that of Layout.tla.     *)
(***************************************************************************)
EXTENDS Docs
CONSTANT TraceFile
VARIABLES t,     \* the trace
          l,     \* next event
          n,     \* tokens so far
          st,    \* open rules: name, children so far
          phase  \* "follow", then "layout" or "stuck", then "done"

vars == <<t, l, n, st, phase>>

ASSUME TablesReady
ASSUME TLCSet(2, TLCEval(JsonDeserialize(TraceFile)))
Traces == TLCGet(2)

(* The positions in the children cs (a child: a kind k or a name n, and    *)
(* the kind f it begins with) where the expression e can end that begins   *)
(* at one of the positions set.                                             *)
RECURSIVE Ends(_, _, _)
RECURSIVE Close(_, _, _)
Ends(e, cs, set) ==
  CASE e.o = "T" -> {p + 1 : p \in {q \in set : q <= Len(cs) /\ cs[q].n = "" /\ cs[q].f = e.k}}
    [] e.o = "N" -> {p + 1 : p \in {q \in set : q <= Len(cs) /\ cs[q].n = e.n}}
                    \cup (IF Tbl.null[e.n] THEN set ELSE {})
    [] e.o = "S" -> FoldLeft(LAMBDA acc, x : Ends(x, cs, acc), set, e.xs)
    [] e.o = "A" -> UNION {Ends(e.xs[i], cs, set) : i \in 1..Len(e.xs)}
    [] e.o = "O" -> set \cup Ends(e.x, cs, set)
    [] e.o = "R" -> Close(e.x, cs, set)
    [] e.o = "F" -> Ends(e.x, cs, {p \in set : p <= Len(cs) /\ cs[p].f \notin e.ks})
Close(x, cs, set) ==
  LET more == set \cup Ends(x, cs, set)
  IN IF more = set THEN set ELSE Close(x, cs, more)
Allowed(name, cs) == name \in Nonterminals /\ (Len(cs) + 1) \in Ends(Tbl.rules[name], cs, {1})

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ n = 0 /\ phase = "follow"
        /\ st = <<[n |-> "", c |-> <<>>]>>

Event == Traces[t].e[l]
More == phase = "follow" /\ l <= Len(Traces[t].e)
Top == st[Len(st)]

Enter == /\ More /\ Event \notin {".", "X"}
         /\ Event \in Nonterminals
         /\ st' = Append(st, [n |-> Event, c |-> <<>>])
         /\ l' = l + 1
         /\ UNCHANGED <<t, n, phase>>
TakeToken == /\ More /\ Event = "." /\ n < Len(Traces[t].k) /\ Len(st) > 1
             /\ st' = [st EXCEPT ![Len(st)].c = Append(@, [n |-> "", f |-> Traces[t].k[n + 1]])]
             /\ n' = n + 1 /\ l' = l + 1
             /\ UNCHANGED <<t, phase>>
Leave == /\ More /\ Event = "X" /\ Len(st) > 1
         /\ Allowed(Top.n, Top.c)
         /\ LET rest == SubSeq(st, 1, Len(st) - 1)
            IN st' = IF Top.c = <<>> THEN rest
                     ELSE [rest EXCEPT ![Len(rest)].c = Append(@, [n |-> Top.n, f |-> Top.c[1].f])]
         /\ l' = l + 1
         /\ UNCHANGED <<t, n, phase>>
Complete == /\ Len(st) = 1 /\ n = Len(Traces[t].k)
            /\ IF n = 0 THEN st[1].c = <<>>
               ELSE Len(st[1].c) = 1 /\ st[1].c[1].n = Traces[t].entry
Follow == Enter \/ TakeToken \/ Leave

---------------------------------------------------------------------------
(* The tree that the events describe. *)
Tree(e, ks) ==
  LET add(s, x) == [s EXCEPT ![Len(s)].c = Append(@, x)]
      step(acc, i) ==
        CASE e[i] = "." -> [acc EXCEPT !.n = @ + 1,
                             !.s = add(@, [n |-> "", k |-> ks[acc.n + 1], a |-> acc.n + 1, z |-> acc.n + 1])]
          [] e[i] = "X" ->
               LET x == acc.s[Len(acc.s)]
                   rest == SubSeq(acc.s, 1, Len(acc.s) - 1)
               IN [acc EXCEPT !.s = IF x.c = <<>> THEN rest
                                    ELSE add(rest, [n |-> x.n, c |-> x.c, a |-> x.c[1].a, z |-> x.c[Len(x.c)].z])]
          [] OTHER -> [acc EXCEPT !.s = Append(@, [n |-> e[i], c |-> <<>>])]
      r == FoldLeft(step, [n |-> 0, s |-> <<[n |-> "", c |-> <<>>]>>], [i \in 1..Len(e) |-> i])
      top == r.s[1].c
  IN IF top = <<>> THEN <<>> ELSE top[1]

\* the recorded gap is the predicted one
SameGap(have, want) ==
  /\ have[1] = want.p
  /\ have[2] = IF \E i \in 1..Len(want.p) : want.p[i] = "n" THEN 2 * want.ind ELSE -1

Compare ==
  LET x == Traces[t]
      tree == TLCEval(Tree(x.e, x.k))
      one(d) ==
        LET out == TLCEval(Layout(Document(tree, x.k, d.g, x.h)))
            \* nothing follows the last token of most fragments
            padded == IF Len(out) < Len(d.o) THEN Append(out, [p |-> <<>>, ind |-> 0]) ELSE out
            same == Len(d.o) = Len(padded) /\ \A i \in 1..Len(d.o) : SameGap(d.o[i], padded[i])
        IN IF same THEN [i |-> d.i, same |-> TRUE, out |-> <<>>]
           ELSE [i |-> d.i, same |-> FALSE, out |-> OutText(out)]
  IN [j \in 1..Len(x.d) |-> one(x.d[j])]
Report(accepted, layouts) ==
  PrintT("CASE " \o ToJson([id |-> t, accepted |-> accepted, at |-> l, rule |-> Top.n, layouts |-> layouts]))

Lay == /\ phase = "follow" /\ l > Len(Traces[t].e) /\ Complete
       /\ Report(TRUE, Compare)
       /\ phase' = "accepted"
       /\ UNCHANGED <<t, l, n, st>>
Reject == /\ phase = "follow"
          /\ ~ENABLED Follow
          /\ ~(l > Len(Traces[t].e) /\ Complete)
          /\ Report(FALSE, <<>>)
          /\ phase' = "rejected"
          /\ UNCHANGED <<t, l, n, st>>
Next == Follow \/ Lay \/ Reject

TokensInOrder == n <= Len(Traces[t].k)
=============================================================================
