-------------------------------- MODULE MCPump --------------------------------
(***************************************************************************)
(* Documents of any size.  A derivation that repeats itself can be pumped: *)
(*   - some neighbouring children of a node, repeated, still match the     *)
(*     rule of the node (statements of a list, items, operands ...), or    *)
(*   - a nonterminal occurs below itself, so that what is between the two  *)
(*     can be repeated (nested statements, parentheses, modifications ...). *)
(* The text of k rounds is  P U^k Y V^k S  (V = "" for lists).  The claim  *)
(* that TLC checks on every job is that the layout grows with the text:    *)
(* the output of 5 and 6 rounds is the output of 4 rounds with its second  *)
(* round repeated, each further one indented deeper by the same amount.    *)
(* (The first and the last round may differ from those in between.)  So    *)
(* the output of 4 rounds predicts that of any number of rounds, and the   *)
(* driver compares texts of up to some 70 000 tokens with mofmt.  The tree  *)
(* of k rounds is put together in the same way (SameTokens).               *)
(***************************************************************************)
EXTENDS Docs
CONSTANTS RunSeed, FirstJob, Jobs, Emit
VARIABLES job, phase, verdict

ASSUME TablesReady

---------------------------------------------------------------------------
(* Which sequences of children does a rule allow?  Positions reached after *)
(* the children cs from the positions set.                                  *)
RECURSIVE Ends(_, _, _)
RECURSIVE Close(_, _, _)
Ends(e, cs, set) ==
  CASE e.o = "T" -> {p + 1 : p \in {q \in set : q <= Len(cs) /\ cs[q].n = "" /\ cs[q].k = e.k}}
    [] e.o = "N" -> {p + 1 : p \in {q \in set : q <= Len(cs) /\ cs[q].n = e.n}}
                    \cup (IF Tbl.null[e.n] THEN set ELSE {})
    [] e.o = "S" -> FoldLeft(LAMBDA acc, x : Ends(x, cs, acc), set, e.xs)
    [] e.o = "A" -> UNION {Ends(e.xs[i], cs, set) : i \in 1..Len(e.xs)}
    [] e.o = "O" -> set \cup Ends(e.x, cs, set)
    [] e.o = "R" -> Close(e.x, cs, set)
    [] e.o = "F" -> Ends(e.x, cs, {p \in set : p <= Len(cs) /\ FirstKind(cs[p]) \notin e.ks})
Close(x, cs, set) ==
  LET more == set \cup Ends(x, cs, set)
  IN IF more = set THEN set ELSE Close(x, cs, more)
Allowed(n, cs) == (Len(cs) + 1) \in Ends(Tbl.rules[n], cs, {1})

Slice(s, i, j) == SubSeq(s, i, j)
RECURSIVE Times_(_, _)
Times_(s, k) == IF k = 0 THEN <<>> ELSE s \o Times_(s, k - 1)
\* cs with its children i..j k times
Repeated(cs, i, j, k) == Slice(cs, 1, i - 1) \o Times_(Slice(cs, i, j), k) \o Slice(cs, j + 1, Len(cs))

(* The same tree with its tokens numbered from at. *)
RECURSIVE Numbered(_, _)
Numbered(x, at) ==
  IF x.n = "" THEN [x EXCEPT !.a = at, !.z = at]
  ELSE LET r == FoldLeft(LAMBDA acc, y : LET t == Numbered(y, acc.at)
                                         IN [c |-> Append(acc.c, t), at |-> t.z + 1],
                         [c |-> <<>>, at |-> at], x.c)
       IN [n |-> x.n, c |-> r.c, a |-> at, z |-> r.at - 1]

(* Paths to the inner nodes of a tree, with their names. *)
RECURSIVE PathsOf(_, _)
PathsOf(x, path) ==
  IF x.n = "" THEN <<>>
  ELSE FoldLeft(LAMBDA acc, j : acc \o PathsOf(x.c[j], Append(path, j)),
                <<[p |-> path, n |-> x.n]>>, [j \in 1..Len(x.c) |-> j])
RECURSIVE At(_, _)
At(x, path) == IF path = <<>> THEN x ELSE At(x.c[path[1]], Tail(path))
RECURSIVE Put(_, _, _)
Put(x, path, y) == IF path = <<>> THEN y
                   ELSE [x EXCEPT !.c[path[1]] = Put(@, Tail(path), y)]

---------------------------------------------------------------------------
(* Pumps of a tree: how to repeat, and the tokens U = u..v-1, Y = v..w,    *)
(* V = w+1..z  (lists: U = u..v-1, Y empty: w = v - 1 = z).                *)
ListPumps(t, paths) ==
  LET of(q) ==
        LET x == At(t, q.p)
            n == Len(x.c)
            fits(i, j) == \A k \in {2, 3} : Allowed(q.n, Repeated(x.c, i, j, k))
        IN {[list |-> TRUE, p |-> q.p, i |-> ij[1], j |-> ij[2], u |-> x.c[ij[1]].a,
             v |-> x.c[ij[2]].z + 1, w |-> x.c[ij[2]].z, z |-> x.c[ij[2]].z, name |-> q.n, levels |-> 0] :
              ij \in {ij \in (1..n) \X (1..n) : ij[1] <= ij[2] /\ ij[2] - ij[1] <= 3 /\ fits(ij[1], ij[2])}}
  IN UNION {of(paths[k]) : k \in 1..Len(paths)}
NestedPumps(t, paths) ==
  {[list |-> FALSE, p |-> paths[ij[1]].p, q |-> SubSeq(paths[ij[2]].p, Len(paths[ij[1]].p) + 1, Len(paths[ij[2]].p)),
    u |-> At(t, paths[ij[1]].p).a, v |-> At(t, paths[ij[2]].p).a, w |-> At(t, paths[ij[2]].p).z,
    z |-> At(t, paths[ij[1]].p).z, name |-> paths[ij[1]].n,
    levels |-> Len(paths[ij[2]].p) - Len(paths[ij[1]].p)] :
      ij \in {ij \in (1..Len(paths)) \X (1..Len(paths)) :
                /\ paths[ij[1]].n = paths[ij[2]].n
                /\ Len(paths[ij[2]].p) > Len(paths[ij[1]].p)
                /\ SubSeq(paths[ij[2]].p, 1, Len(paths[ij[1]].p)) = paths[ij[1]].p}}

\* the tree of k rounds
RECURSIVE Nest(_, _, _, _)
Nest(x, q, y, k) == IF k = 1 THEN Put(x, q, y) ELSE Put(x, q, Nest(x, q, y, k - 1))
Pumped(t, b, k) ==
  LET x == At(t, b.p)
      new == IF b.list THEN [x EXCEPT !.c = Repeated(x.c, b.i, b.j, k)]
             ELSE Nest(x, b.q, At(x, b.q), k)
  IN Numbered(Put(t, b.p, new), 1)

\* the tokens of the first text that k rounds consist of; s: seams
Ints(i, j) == [x \in 1..(IF j < i THEN 0 ELSE j - i + 1) |-> i + x - 1]
Source(b, n, k) ==
  Ints(1, b.u - 1) \o Times_(Ints(b.u, b.v - 1), k) \o Ints(b.v, b.w)
  \o Times_(Ints(b.w + 1, b.z), k) \o Ints(b.z + 1, n)
\* the gap between two rounds: the one that is there in the first text, if it fits
SeamU(b, ks, gs) == IF b.u = b.v THEN <<>>
                    ELSE LET g == IF b.u = 1 THEN <<"s">> ELSE gs[b.u]
                         IN IF Fits(g, ks[b.v - 1], ks[b.u]) THEN g ELSE <<"s">>
SeamV(b, ks, gs) == IF b.w = b.z THEN <<>>
                    ELSE IF Fits(gs[b.w + 1], ks[b.z], ks[b.w + 1]) THEN gs[b.w + 1] ELSE <<"s">>
SeamGaps(b, ks, gs, k) ==
  LET n == Len(ks)
      lu == b.v - b.u
      lv == b.z - b.w
      vfrom == b.u + k * lu + (b.w - b.v + 1)   \* first token of the first V
      src == Source(b, n, k)
      gap(i) ==
        IF i > Len(src) THEN gs[n + 1]
        ELSE IF lu > 0 /\ i > b.u /\ i < b.u + k * lu /\ (i - b.u) % lu = 0 THEN SeamU(b, ks, gs)
        ELSE IF lv > 0 /\ i > vfrom /\ i < vfrom + k * lv /\ (i - vfrom) % lv = 0 THEN SeamV(b, ks, gs)
        ELSE gs[src[i]]
  IN [i \in 1..(Len(src) + 1) |-> gap(i)]

Text_(t, b, ks, gs, hs, k) ==
  LET src == TLCEval(Source(b, Len(ks), k))
      tree == TLCEval(Pumped(t, b, k))
      kinds == [i \in 1..Len(src) |-> ks[src[i]]]
  IN TLCEval([same |-> Yield(tree) = kinds,
              d |-> Document(tree, kinds, TLCEval(SeamGaps(b, ks, gs, k)), [i \in 1..Len(src) |-> hs[src[i]]])])

(* The text of the tree (see Docs.tla) around the rounds: before them, U,   *)
(* between, V, after them.                                                  *)
Outside(x, path) ==
  LET step(acc, j) ==
        [x |-> acc.x.c[j],
         a |-> acc.a \o FoldLeft(LAMBDA t, y : t \o TreeText(y), "(" \o acc.x.n \o " ", Slice(acc.x.c, 1, j - 1)),
         z |-> FoldLeft(LAMBDA t, y : t \o TreeText(y), "", Slice(acc.x.c, j + 1, Len(acc.x.c))) \o ")" \o acc.z]
  IN FoldLeft(step, [x |-> x, a |-> "", z |-> ""], path)
Many(cs) == FoldLeft(LAMBDA t, y : t \o TreeText(y), "", cs)
TreeParts(t, b) ==
  LET o == Outside(t, b.p)
      x == o.x
      i == Outside(x, IF b.list THEN <<>> ELSE b.q)
  IN IF b.list
     THEN <<o.a \o "(" \o x.n \o " " \o Many(Slice(x.c, 1, b.i - 1)), Many(Slice(x.c, b.i, b.j)), "", "",
            Many(Slice(x.c, b.j + 1, Len(x.c))) \o ")" \o o.z>>
     ELSE <<o.a, i.a, TreeText(i.x), i.z, o.z>>
TimesText(s, k) == FoldLeft(LAMBDA acc, x : acc \o s, "", [x \in 1..k |-> x])
TreeOfRounds(tp, k) == tp[1] \o TimesText(tp[2], k) \o tp[3] \o TimesText(tp[4], k) \o tp[5]

---------------------------------------------------------------------------
(* What the output of 4 rounds predicts for k rounds.                      *)
Deeper(gaps, by) == [i \in 1..Len(gaps) |-> [gaps[i] EXCEPT !.ind = @ + by]]
Delta(b, out4) ==
  LET lu == b.v - b.u
      v1 == b.u + 4 * lu + (b.w - b.v + 1)
      lv == b.z - b.w
  IN IF lu > 0 THEN out4[b.u + 2 * lu].ind - out4[b.u + lu].ind
     ELSE IF lv > 0 THEN out4[v1 + lv].ind - out4[v1 + 2 * lv].ind ELSE 0
RECURSIVE Rounds(_, _, _, _, _, _)
\* rounds d..k of those in list at 1..4 (1: outermost)
Rounds(part, d, k, dl, acc, up) ==
  IF d > k THEN acc
  ELSE LET g == IF d = 1 THEN part[1]
                ELSE IF d = k THEN Deeper(part[4], (k - 4) * dl)
                ELSE Deeper(part[2], (d - 2) * dl)
       IN Rounds(part, d + 1, k, dl, IF up THEN acc \o g ELSE g \o acc, up)
Predicted(b, out4, k) ==
  LET lu == b.v - b.u
      ly == b.w - b.v + 1
      lv == b.z - b.w
      dl == Delta(b, out4)
      us == [x \in 1..4 |-> SubSeq(out4, b.u + (x - 1) * lu, b.u + x * lu - 1)]
      y0 == b.u + 4 * lu
      v0 == y0 + ly
      vs == [x \in 1..4 |-> SubSeq(out4, v0 + (4 - x) * lv, v0 + (5 - x) * lv - 1)]
  IN SubSeq(out4, 1, b.u - 1) \o Rounds(us, 1, k, dl, <<>>, TRUE)
     \o Deeper(SubSeq(out4, y0, v0 - 1), (k - 4) * dl)
     \o Rounds(vs, 1, k, dl, <<>>, FALSE) \o SubSeq(out4, v0 + 4 * lv, Len(out4))

---------------------------------------------------------------------------
RECURSIVE Repeats(_)
Repeats(e) == CASE e.o = "R" -> TRUE
                [] e.o \in {"S", "A"} -> \E i \in 1..Len(e.xs) : Repeats(e.xs[i])
                [] e.o \in {"O", "F"} -> Repeats(e.x)
                [] OTHER -> FALSE
\* nonterminals for jobs with lists and for the others
Goals == Tbl.goals
Listy == SelectSeq(Goals, LAMBDA n : Repeats(Tbl.rules[n]))
Goal(j) == IF j % 2 = 0 THEN Goals[1 + ((j \div 2) % Len(Goals))] ELSE Listy[1 + ((j \div 2) % Len(Listy))]
Make(j) ==
  LET r == Seed(RunSeed % 65537, j)
      r2 == Rnd(r)
      r3 == Rnd(r2)
      r4 == Rnd(r3)
      dn == TLCEval(CASE j % 5 = 0 -> DeepDerivation(r3, 6 + Draw(r4, 30), Draw(r2, 2) * 20)
                      [] OTHER -> LongDerivation(Goal(j), r3, 6 + Draw(r4, 30), 3))
  IN TreeOf(dn)
Choice(set, r) == LET s == SetToSeq(set) IN s[1 + Draw(r, Len(s))]
\* one of the pumps: those of the goal first, else of any name
Pick(set, goal, r) ==
  LET mine == {b \in set : b.name = goal}
      name == Choice({b.name : b \in set}, r)
  IN IF mine # {} THEN Choice(mine, Rnd(r)) ELSE Choice({b \in set : b.name = name}, Rnd(r))

NoPump == [some |-> FALSE]
Result(j) ==
  LET t == TLCEval(Make(j))
      ks == TLCEval(KindsOfTree(t))
      r == Rnd(Fork(Seed((RunSeed + 5) % 65537, j), 3))
      r2 == Rnd(r)
      paths == TLCEval(IF t = <<>> THEN <<>> ELSE PathsOf(t, <<>>))
      set == TLCEval(IF t = <<>> THEN {}
                     ELSE LET nested == IF j % 2 = 0 THEN NestedPumps(t, paths) ELSE {}
                              lists == ListPumps(t, paths)
                              inner == {b \in lists : b.name # "StoredDefinition"}
                          IN IF nested # {} THEN nested ELSE IF inner # {} THEN inner ELSE lists)
  IN IF set = {} THEN NoPump
     ELSE LET b == TLCEval(Pick(set, Goal(j), r))
              hs == TLCEval(Heights(ks, r2))
              gs == TLCEval(RandomGaps(ks, r2, j % 5))
              d4 == Text_(t, b, ks, gs, hs, 4)
              d5 == Text_(t, b, ks, gs, hs, 5)
              d6 == Text_(t, b, ks, gs, hs, 6)
              out4 == TLCEval(Layout(d4.d))
          IN [some |-> TRUE, b |-> b, ks |-> ks, hs |-> hs, gs |-> gs, out4 |-> out4,
              tp |-> TreeParts(t, b),
              su |-> SeamU(b, ks, gs), sv |-> SeamV(b, ks, gs), dl |-> Delta(b, out4),
              same |-> d4.same /\ d5.same /\ d6.same /\ TreeOfRounds(TreeParts(t, b), 5) = TreeText(d5.d.t),
              linear |-> /\ Predicted(b, out4, 4) = out4
                         /\ Predicted(b, out4, 5) = Layout(d5.d)
                         /\ Predicted(b, out4, 6) = Layout(d6.d)]

Init == job \in FirstJob..(FirstJob + Jobs - 1) /\ phase = "todo" /\ verdict = [same |-> TRUE, linear |-> TRUE]
Next == /\ phase = "todo"
        /\ phase' = "done"
        /\ LET x == TLCEval(Result(job))
           IN IF ~x.some THEN verdict' = verdict
              ELSE /\ verdict' = [same |-> x.same, linear |-> x.linear]
                   /\ Emit => PrintT("CASE " \o ToJson(
                        [id |-> job, k |-> x.ks, h |-> x.hs, g |-> [i \in 1..Len(x.gs) |-> Text(x.gs[i])],
                         u |-> x.b.u, v |-> x.b.v, w |-> x.b.w, z |-> x.b.z, list |-> x.b.list, name |-> x.b.name,
                         levels |-> x.b.levels, tree |-> x.tp, su |-> Text(x.su), sv |-> Text(x.sv), dl |-> x.dl,
                         out |-> OutText(x.out4)]))
        /\ UNCHANGED job

SameTokens == verdict.same
GrowsWithTheText == verdict.linear
=============================================================================
