---------------------------------- MODULE MCCli ----------------------------------
(***************************************************************************)
(* Histories of commands in small worlds.                                  *)
(*   job <= Small   one file (of every kind of contents and name), one     *)
(*                  command of every kind: all of them                     *)
(*   other jobs     a pseudo-random world and one to three commands; some  *)
(*                  worlds are large: deep, wide, or of many files         *)
(* At the end of a history it is printed with the predicted results.       *)
(***************************************************************************)
EXTENDS Cli, Rand, Json
CONSTANTS RunSeed, Jobs, Emit, Permissions
VARIABLES job, world, story

\* names and whether they have the extension `mo'
Names == <<
  [n |-> "a.mo", mo |-> TRUE], [n |-> "b.mo", mo |-> TRUE], [n |-> "p.q.mo", mo |-> TRUE],
  [n |-> ".h.mo", mo |-> TRUE], [n |-> "w x.mo", mo |-> TRUE], [n |-> "c.txt", mo |-> FALSE],
  [n |-> "A.MO", mo |-> FALSE], [n |-> ".mo", mo |-> FALSE], [n |-> "mo", mo |-> FALSE],
  [n |-> "x.mo.bak", mo |-> FALSE], [n |-> "xmo", mo |-> FALSE], [n |-> "y.mos", mo |-> FALSE],
  [n |-> "-z.mo", mo |-> TRUE], [n |-> "package.mo", mo |-> TRUE], [n |-> "n.m.o", mo |-> FALSE],
  \* <E9> stands for a byte that is not UTF-8, <U> for letters of several bytes
  [n |-> "caf<E9>.mo", mo |-> TRUE], [n |-> "<U>*.mo", mo |-> TRUE], [n |-> "a:1.mo", mo |-> TRUE] >>
Contents == <<"good", "ugly", "crlf", "nonl", "extra", "empty", "nl", "syntax", "lexical", "latin">>
Dirs == <<"", "d", "d/s", "lib.mo", "d/e", "no", "d/s/t", "d/s/t/u", "d/s/t/u/v">>
Parent == ("d" :> "" @@ "d/s" :> "d" @@ "lib.mo" :> "" @@ "d/e" :> "d" @@ "no" :> "" @@
           "d/s/t" :> "d/s" @@ "d/s/t/u" :> "d/s/t" @@ "d/s/t/u/v" :> "d/s/t/u")
Leaf == ("d" :> "d" @@ "d/s" :> "s" @@ "lib.mo" :> "lib.mo" @@ "d/e" :> "e" @@ "no" :> "no" @@
         "d/s/t" :> "t" @@ "d/s/t/u" :> "u" @@ "d/s/t/u/v" :> "v")

Node(type, mo) ==
  [t |-> type, mo |-> mo, c |-> "", l |-> FALSE, x |-> FALSE, blocked |-> FALSE, kids |-> <<>>,
   to |-> "", big |-> FALSE]
File(it, blocked) ==
  [Node("file", it.n.mo) EXCEPT !.c = it.c, !.l = it.l, !.x = it.x, !.big = it.big, !.blocked = blocked]
Link(it, blocked) == [Node("link", it.n.mo) EXCEPT !.to = it.to, !.blocked = blocked]
Dir(unreadable, kids) == [Node("dir", FALSE) EXCEPT !.x = unreadable, !.kids = kids]

\* the world with the given files: set of [d |-> directory, n |-> name, c, l, x, big, to],
\* which is a link if `to' is not empty
\* parent and leaf: of the directories below the one named ""
WorldOf(items, closed, parent, leaf) ==
  LET inside(dd) == {it \in items : it.d = dd}
      filekids(dd) == SetToSeq({it.n.n : it \in inside(dd)})
      dirkids(dd) == SetToSeq({leaf[e] : e \in {e \in DOMAIN parent : parent[e] = dd}})
      dirs == [dd \in {""} \cup DOMAIN parent |-> Dir(dd = "no" /\ closed, filekids(dd) \o dirkids(dd))]
      paths == {Join(it.d, it.n.n) : it \in items}
      at(p) == CHOOSE it \in items : Join(it.d, it.n.n) = p
      fls == [p \in paths |-> LET it == at(p) 
                                  hidden == it.d = "no" /\ closed
                              IN IF it.to = "" THEN File(it, hidden) ELSE Link(it, hidden)]
  IN fls @@ dirs
World(items, closed) == WorldOf(items, closed, Parent, Leaf)

\* how arguments are written
\* (@ stands for the absolute path of the world)
Arg(s, p) == [s |-> s, b |-> s, p |-> p, dash |-> FALSE]
Slash(b, p) == [s |-> b \o "/", b |-> b, p |-> p, dash |-> FALSE]
Flag(s) == [s |-> s, b |-> s, p |-> s, dash |-> TRUE]
DirArgs == <<Arg("d", "d"), Arg(".", ""), Arg("d/s", "d/s"), Arg("lib.mo", "lib.mo"), Arg("./d", "d"),
             Arg("d/e", "d/e"), Arg("no", "no"), Slash("d", "d"), Slash(".", ""), Arg("d//s", "d/s"),
             Arg("d/../d", "d"), Arg("@/d", "d"), Arg("d/./s/t", "d/s/t"), Slash("lib.mo", "lib.mo")>>
OddArgs == <<Arg("gone.mo", "gone.mo"), Arg("gone", "gone"), Arg("d/gone.mo", "d/gone.mo"),
             Arg("--check", "--check"), Arg("-h", "-h"), Arg("c.txt", "c.txt"), Arg("gone/", "gone/"),
             Arg("", "gone"), Arg("a.mo/", "gone"), Arg("gone/../a.mo", "gone")>>
Words == <<Flag("-h"), Flag("--help"), Flag("-v"), Flag("--version"), Flag("--bogus"), Flag("-x"),
           Flag("--Check"), Flag("-"), Flag("--")>>

---------------------------------------------------------------------------
(* The small worlds                                                        *)
Cases == [n : 1..Len(Names), c : 1..Len(Contents), k : 0..5]
CaseSeq == SetToSeq(Cases)
Small == Cardinality(Cases)

SmallWorld(cs) == World({[d |-> IF cs.k \in {2, 3, 4} THEN "d" ELSE "", n |-> Names[cs.n],
                          c |-> Contents[cs.c], l |-> FALSE, x |-> FALSE, big |-> FALSE, to |-> ""]}, FALSE)
SmallStory(cs) ==
  LET name == Names[cs.n].n
      f == Arg("./" \o name, name)
      check == Flag("--check")
  IN CASE cs.k = 0 -> <<<<f>>, <<check, f>>>>
       [] cs.k = 1 -> <<<<check, f>>, <<f>>, <<f>>>>
       [] cs.k = 2 -> <<<<Arg("d", "d")>>, <<check, Arg("d", "d")>>>>
       [] cs.k = 3 -> <<<<check, Arg(".", "")>>>>
       [] cs.k = 4 -> <<<<Words[1 + ((cs.n + cs.c) % Len(Words))], Arg("d", "d")>>>>
       [] OTHER -> <<<<check>>, <<>>, <<f, f>>>>

---------------------------------------------------------------------------
(* Random worlds                                                           *)
RandomItems(r0) ==
  LET count == 1 + Draw(r0, 8)
      step(acc, i) ==
        LET r1 == Rnd(acc.r)
            r2 == Rnd(r1)
            r3 == Rnd(r2)
            r4 == Rnd(r3)
            nm == Names[1 + Draw(r1, IF Draw(r4, 3) = 0 THEN Len(Names) ELSE 5)]
            con == IF Draw(r4, 5) < 3 THEN Contents[1 + Draw(r3, 2)]
                   ELSE Contents[1 + Draw(r3, Len(Contents))]
            it == [d |-> Dirs[1 + Draw(r2, Len(Dirs))], n |-> nm,
                   c |-> con,
                   \* a formatted file need not be written, so it is not locked
                   l |-> Permissions /\ Draw(Rnd(r4), 12) = 0 /\ ~IsFormatted(con),
                   x |-> Permissions /\ Draw(Rnd(Rnd(r4)), 16) = 0,
                   big |-> con \in {"good", "ugly"} /\ Draw(Rnd(Rnd(Rnd(r4))), 12) = 0, to |-> ""]
        IN [r |-> r4, s |-> IF \E o \in acc.s : o.d = it.d /\ o.n = it.n THEN acc.s ELSE acc.s \cup {it}]
  IN FoldLeft(step, [r |-> r0, s |-> {}], [i \in 1..count |-> i])

\* many files in one directory
ManyItems == {[d |-> "d/s", n |-> [n |-> "m" \o ToString(k) \o ".mo", mo |-> TRUE],
               c |-> Contents[1 + (k % 2)], l |-> FALSE, x |-> FALSE, big |-> FALSE, to |-> ""] : k \in 1..40}

\* links to files, to directories and to nothing; links to directories above
\* them included, but every other way ends
LinkNames == <<[n |-> "l.mo", mo |-> TRUE], [n |-> "l2.mo", mo |-> TRUE], [n |-> "l.txt", mo |-> FALSE],
               [n |-> "ln", mo |-> FALSE]>>
LinkDirs == <<"", "d", "d/s", "no">>
LinkedDirs == <<"d/e", "lib.mo", "d/s/t">>
RandomLinks(items, r0) ==
  LET its == SetToSeq(items)
      step(acc, i) ==
        LET r1 == Rnd(acc.r)
            r2 == Rnd(r1)
            r3 == Rnd(r2)
            k == Draw(r3, 10)
            f == its[1 + Draw(r2, Len(its))]
            dd == LinkDirs[1 + Draw(r1, Len(LinkDirs))]
            to == CASE k < 5 -> Join(f.d, f.n.n)
                    [] k < 8 -> LinkedDirs[1 + Draw(r2, Len(LinkedDirs))]
                    [] k = 8 -> IF dd \in {"d", "d/s"} THEN "d" ELSE "gone.mo"
                    [] OTHER -> "gone.mo"
            it == [d |-> dd, n |-> LinkNames[1 + Draw(Rnd(r3), Len(LinkNames))],
                   c |-> "", l |-> FALSE, x |-> FALSE, big |-> FALSE, to |-> to]
        IN [r |-> Rnd(r3), s |-> IF \E o \in acc.s : o.d = it.d /\ o.n = it.n THEN acc.s ELSE acc.s \cup {it}]
  IN FoldLeft(step, [r |-> r0, s |-> {}], [i \in 1..(1 + Draw(r0, 3)) |-> i]).s

RandomArg(items, r) ==
  LET r2 == Rnd(r)
      its == SetToSeq(items)
      it == its[1 + Draw(r2, Len(its))]
      q == Draw(r, 10)
      path == Join(it.d, it.n.n)
      prefix == IF it.d = "" /\ it.n.n = "-z.mo" THEN "./" ELSE <<"", "", "", "", "./", "./", "@/", "d/../">>[1 + Draw(Rnd(r2), 8)]
  IN IF q < 5 THEN Arg(prefix \o path, path)
     ELSE IF q < 9 THEN DirArgs[1 + Draw(r2, Len(DirArgs))]
     ELSE OddArgs[1 + Draw(r2, Len(OddArgs))]

RandomCommand(items, r0) ==
  LET n == 1 + Draw(r0, 3)
      step(acc, i) == [r |-> Rnd(Rnd(Rnd(Rnd(acc.r)))), a |-> Append(acc.a, RandomArg(items, Rnd(acc.r)))]
      as == FoldLeft(step, [r |-> Rnd(r0), a |-> <<>>], [i \in 1..n |-> i]).a
      k == Draw(Rnd(Rnd(r0)), 20)
      \* a first argument that looks like an option is one
      lead == IF as[1].s \in {"--check", "-h"} THEN <<Arg("d", "d")>> \o as ELSE as
  IN IF k = 0 THEN <<Words[1 + Draw(r0, Len(Words))]>> \o as
     ELSE IF k < 10 THEN <<Flag("--check")>> \o as
     ELSE lead

RandomStory(items, r0) ==
  LET a == RandomCommand(items, r0)
      b == RandomCommand(items, Fork(r0, 5))
      plain(x) == IF x[1].dash THEN Tail(x) ELSE x
      k == Draw(Fork(r0, 9), 4)
  IN CASE k = 0 -> <<a>>
       [] k = 1 -> IF plain(a) = <<>> \/ plain(a)[1].s \in {"--check", "-h"} THEN <<a, b>>
                   ELSE <<plain(a), <<Flag("--check")>> \o plain(a)>>
       [] k = 2 -> <<a, b>>
       [] OTHER -> <<a, b, a>>

---------------------------------------------------------------------------
(* Large worlds                                                            *)
DirNames == <<"x", "y.mo", ".git", "w x", "resources", "<U>", "a.b.c", "mo">>
Item(dir, name, con) == [d |-> dir, n |-> [n |-> name, mo |-> TRUE], c |-> con, l |-> FALSE, x |-> FALSE,
                         big |-> FALSE, to |-> ""]
\* a directory in a directory in a directory ...
DeepWorld(r) ==
  LET n == 10 + Draw(r, 90)
      name(i) == DirNames[1 + ((i + Draw(r, 8)) % 8)]
      paths == FoldLeft(LAMBDA acc, i : Append(acc, Join(IF acc = <<>> THEN "" ELSE acc[Len(acc)], name(i))), <<>>,
                        [i \in 1..n |-> i])
      parent == [p \in Range(paths) |-> LET i == CHOOSE i \in 1..n : paths[i] = p IN IF i = 1 THEN "" ELSE paths[i - 1]]
      leaf == [p \in Range(paths) |-> name(CHOOSE i \in 1..n : paths[i] = p)]
  IN [w |-> WorldOf({Item(paths[i], "a.mo", Contents[1 + (i % 3)]) : i \in {i \in 1..n : i % 7 = 0 \/ i = n}},
                    FALSE, parent, leaf),
      a |-> <<Arg(".", "")>>]
\* many directories
WideWorld(r) ==
  LET n == 20 + Draw(r, 130)
      name(i) == "s" \o ToString(i)
      dirs == {name(i) : i \in 1..n}
  IN [w |-> WorldOf({Item(name(i), "b" \o ToString(i % 5) \o ".mo", Contents[1 + (i % 2)]) : i \in 1..n}, FALSE,
                    [p \in dirs |-> ""], [p \in dirs |-> p]),
      a |-> <<Arg(".", "")>>]
\* many files, named one by one or by their directory
LongName == FoldLeft(LAMBDA acc, i : acc \o "long-name-", "", [i \in 1..24 |-> i])
FullWorld(r, byname) ==
  LET n == 50 + Draw(r, 250)
      items == {Item("d", (IF i % 40 = 0 THEN LongName ELSE "m") \o ToString(i) \o ".mo",
                     IF i % 97 = 0 THEN "syntax" ELSE Contents[1 + (i % 2)]) : i \in 1..n}
      seq == SetToSeq(items)
  IN [w |-> WorldOf(items, FALSE, "d" :> "", "d" :> "d"),
      a |-> IF byname THEN [i \in 1..n |-> LET p == Join("d", seq[i].n.n) IN Arg(p, p)] ELSE <<Arg("d", "d")>>]
LargeSetup(j) ==
  LET r == Seed((RunSeed + 3) % 65537, j)
      k == (j \div 30) % 4
      x == CASE k = 0 -> DeepWorld(r) [] k = 1 -> WideWorld(r) [] OTHER -> FullWorld(r, k = 2)
      check == <<Flag("--check")>> \o x.a
  IN [w |-> x.w, st |-> IF Draw(Rnd(r), 2) = 0 THEN <<x.a, check>> ELSE <<check, x.a, check>>]

Commands(list, full) == [i \in 1..Len(list) |-> [a |-> list[i], full |-> full]]
Setup(j) ==
  IF j <= Small THEN [w |-> SmallWorld(CaseSeq[j]), st |-> Commands(SmallStory(CaseSeq[j]), FALSE)]
  ELSE IF j % 30 = 7 THEN LET x == LargeSetup(j) IN [w |-> x.w, st |-> Commands(x.st, FALSE)]
  ELSE LET it == RandomItems(Seed(RunSeed % 65537, j))
           r == Rnd(Fork(it.r, 3))
           closed == Permissions /\ Draw(it.r, 4) = 0
       IN IF j % 20 = 0
          \* a full disk
          THEN [w |-> World({[x EXCEPT !.big = x.c = "ugly", !.l = FALSE] : x \in it.s}, FALSE),
                st |-> Commands(<<<<Arg(".", "")>>>>, TRUE)]
          ELSE LET more == IF j % 50 = 1 THEN ManyItems ELSE IF j % 3 = 0 THEN RandomLinks(it.s, r) ELSE {}
                   all == it.s \cup more
               IN [w |-> World(all, closed), st |-> Commands(RandomStory(all, Rnd(it.r)), FALSE)]

Init ==
  /\ job \in 1..(Small + Jobs)
  /\ \E m \in {Setup(job)} : world = m.w /\ story = m.st
  /\ fs = world
  /\ commands = story
  /\ phase = "begin" /\ args = <<>> /\ files = <<>> /\ mode = "none" /\ code = 0
  /\ reports = <<>> /\ log = <<>>

Files(f) == SetToSeq({[p |-> p, c |-> f[p].c, l |-> f[p].l, x |-> f[p].x, big |-> f[p].big] :
                      p \in {q \in DOMAIN f : f[q].t = "file"}})
Links(f) == SetToSeq({[p |-> p, to |-> f[p].to] : p \in {q \in DOMAIN f : f[q].t = "link"}})
Closed(f) == {q \in DOMAIN f : f[q].t = "dir" /\ f[q].x} # {}

Step ==
  /\ Next
  /\ UNCHANGED <<job, world, story>>
  /\ (Emit /\ commands # <<>> /\ commands' = <<>>) =>
       PrintT("CASE " \o ToJson([id |-> job, files |-> Files(world), closed |-> Closed(world),
         links |-> Links(world), dirs |-> SetToSeq({p \in DOMAIN world : world[p].t = "dir" /\ p # ""}), full |-> story[1].full,
         cmds |-> [i \in 1..Len(story) |-> [j \in 1..Len(story[i].a) |-> story[i].a[j].s]],
         log |-> [i \in 1..Len(log') |->
                    [code |-> log'[i].code, reports |-> log'[i].reports, mode |-> log'[i].mode,
                     files |-> Files(log'[i].fs)]]]))

\* checked on every transition
StepsAllowed == [][WritesOnlyFormatted /\ NothingAppears /\ CheckWritesNothing]_<<vars, job, world, story>>

\* the same arguments, first formatted and then checked
CleanAfterFormat ==
  \A i \in 1..(Len(log) - 1) :
    (/\ log[i].mode = "format" /\ log[i].code = 0
     /\ log[i + 1].mode = "check" /\ Tail(story[i + 1].a) = story[i].a) => log[i + 1].code = 0
\* formatting twice is formatting once
FormatStable ==
  \A i \in 1..(Len(log) - 1) :
    (log[i].mode = "format" /\ story[i] = story[i + 1]) => log[i + 1].fs = log[i].fs
Finishes == phase \in {"begin", "expand", "treat", "exit"}
Spec == Init /\ [][Step]_<<vars, job, world, story>>
=============================================================================
