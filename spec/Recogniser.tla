------------------------------- MODULE Recogniser -------------------------------
(***************************************************************************)
(* The language of the grammar, decided one token at a time.               *)
(*                                                                         *)
(* The recogniser is the non-deterministic pushdown automaton of the       *)
(* grammar: a configuration is a stack of expressions of the grammar that  *)
(* are still to be matched, and the state is the set of configurations     *)
(* that the tokens read so far can lead to.  A token is viable if the      *)
(* state after it is not empty; a text is complete if some stack can be    *)
(* matched with nothing.                                                   *)
(*                                                                         *)
(* Expressions are numbered and kept in a table, so that a stack is a      *)
(* sequence of numbers.                                                    *)
(***************************************************************************)
EXTENDS Grammar

(* Number(e, tab) = [i |-> number of e, tab |-> table with e in it]        *)
RECURSIVE Number(_, _)
NumberAll(xs, tab) ==
  FoldLeft(LAMBDA acc, x : LET r == Number(x, acc.tab)
                           IN [is |-> Append(acc.is, r.i), tab |-> r.tab],
           [is |-> <<>>, tab |-> tab], xs)
Number(e, tab) ==
  CASE e.o \in {"T", "N"} -> [i |-> Len(tab) + 1, tab |-> Append(tab, e)]
    [] e.o \in {"S", "A"} ->
         LET r == NumberAll(e.xs, tab)
         IN [i |-> Len(r.tab) + 1, tab |-> Append(r.tab, [o |-> e.o, is |-> r.is])]
    [] e.o \in {"O", "R"} ->
         LET r == Number(e.x, tab)
         IN [i |-> Len(r.tab) + 1, tab |-> Append(r.tab, [o |-> e.o, i |-> r.i])]
    [] e.o = "F" ->
         LET r == Number(e.x, tab)
         IN [i |-> Len(r.tab) + 1, tab |-> Append(r.tab, [o |-> "F", ks |-> e.ks, i |-> r.i])]

NumberedRules ==
  LET step(acc, n) == LET r == Number(Rules[n], acc.tab)
                      IN [roots |-> acc.roots @@ (n :> r.i), tab |-> r.tab]
  IN FoldLeft(step, [roots |-> [n \in {} |-> 0], tab |-> <<>>], SetToSeq(Nonterminals))

\* whether and with what an expression of the table can start; the
\* expressions below have smaller numbers
Annotated(nr, null, first) ==
  LET step(acc, e) ==
        LET nl(i) == acc[i].null
            fs(i) == acc[i].first
            one ==
              CASE e.o = "T" -> [null |-> FALSE, first |-> {e.k}]
                [] e.o = "N" -> [null |-> null[e.n], first |-> first[e.n]]
                [] e.o = "S" ->
                     [null |-> \A j \in 1..Len(e.is) : nl(e.is[j]),
                      first |-> UNION {fs(e.is[j]) :
                                       j \in {h \in 1..Len(e.is) : \A g \in 1..(h - 1) : nl(e.is[g])}}]
                [] e.o = "A" ->
                     [null |-> \E j \in 1..Len(e.is) : nl(e.is[j]),
                      first |-> UNION {fs(e.is[j]) : j \in 1..Len(e.is)}]
                [] e.o \in {"O", "R"} -> [null |-> TRUE, first |-> fs(e.i)]
                [] e.o = "F" -> [null |-> FALSE, first |-> fs(e.i) \ e.ks]
        IN Append(acc, one @@ (IF e.o = "N" THEN [o |-> "N", i |-> nr.roots[e.n]] ELSE e))
  IN FoldLeft(step, <<>>, nr.tab)

RecTables ==
  LET nr == TLCEval(NumberedRules)
  IN [e |-> TLCEval(Annotated(nr, Tbl.null, Tbl.first)), roots |-> nr.roots]
RecTablesReady == TLCSet(2, TLCEval(RecTables))
Rec == TLCGet(2)

(* The stacks after token k, where it starts what matches expression i     *)
(* and rest is still to come after that.                                   *)
RECURSIVE Enter(_, _, _)
Enter(i, rest, k) ==
  LET e == Rec.e[i] IN
  IF ~(k \in e.first) THEN {}
  ELSE
  CASE e.o = "T" -> {rest}
    [] e.o = "N" -> Enter(e.i, rest, k)
    [] e.o = "S" ->
         UNION {Enter(e.is[j], SubSeq(e.is, j + 1, Len(e.is)) \o rest, k) :
                j \in {h \in 1..Len(e.is) : \A g \in 1..(h - 1) : Rec.e[e.is[g]].null}}
    [] e.o = "A" -> UNION {Enter(e.is[j], rest, k) : j \in 1..Len(e.is)}
    [] e.o = "O" -> Enter(e.i, rest, k)
    [] e.o = "R" -> Enter(e.i, <<i>> \o rest, k)
    [] e.o = "F" -> Enter(e.i, rest, k)

RECURSIVE After(_, _)
After(stack, k) ==
  IF stack = <<>> THEN {}
  ELSE Enter(stack[1], Tail(stack), k) \cup
       (IF Rec.e[stack[1]].null THEN After(Tail(stack), k) ELSE {})

(* The recogniser.                                                         *)
Start0(n) == {<<Rec.roots[n]>>}
Read(state, k) == UNION {After(st, k) : st \in state}
Complete(state) == \E st \in state : \A j \in 1..Len(st) : Rec.e[st[j]].null

\* kinds that can come next
RECURSIVE NextKinds(_)
NextKinds(stack) ==
  IF stack = <<>> THEN {}
  ELSE Rec.e[stack[1]].first \cup
       (IF Rec.e[stack[1]].null THEN NextKinds(Tail(stack)) ELSE {})
Viable(state) == UNION {NextKinds(st) : st \in state}

(* Verdict on a sequence of kinds: 0 if it is a sentence, otherwise the    *)
(* number of the first token that cannot be there (one past the last if    *)
(* the end comes too early).                                               *)
FirstWrong(start, kinds) ==
  LET step(acc, k) ==
        IF acc.bad # 0 THEN acc
        ELSE LET s == Read(acc.s, k)
             IN IF s = {} THEN [acc EXCEPT !.bad = acc.n + 1]
                ELSE [s |-> s, n |-> acc.n + 1, bad |-> 0]
      r == FoldLeft(step, [s |-> Start0(start), n |-> 0, bad |-> 0], kinds)
  IN IF r.bad # 0 THEN r.bad ELSE IF Complete(r.s) THEN 0 ELSE Len(kinds) + 1
=============================================================================
