----------------------------------- MODULE Cli -----------------------------------
(***************************************************************************)
(* The command line tool: a sequence of commands in a file system.         *)
(*                                                                         *)
(* fs     path -> node; a directory has kids (names) and may be unreadable *)
(*        (x), a file has contents c, may be unreadable (x) or locked (l:  *)
(*        not writable), large (big), and may have a Modelica name (mo:    *)
(*        extension `mo'); a link leads to the path `to', if that exists   *)
(* Contents are abstract: "good" formatted, "ugly" valid, not formatted,   *)
(*        "crlf" "nonl" "extra" formatted but for the line ends, without   *)
(*        the last line end, with one more; "empty" no text, "nl" one line *)
(*        end (the formatted empty file); "syntax" "lexical" not Modelica, *)
(*        "latin" not UTF-8.                                               *)
(*                                                                         *)
(* One command is: Begin (look at the arguments), Expand (one argument at  *)
(* a time, a directory into its Modelica files), Treat (one file at a      *)
(* time), Exit.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES
  fs,        \* the file system
  commands,  \* commands still to come (the first one is running): their
             \* arguments a, and whether the disk is full, so that large
             \* files cannot be written
  phase,     \* "begin" "expand" "treat" "idle"
  args,      \* arguments still to be expanded
  files,     \* files still to be treated: [p |-> path, s |-> path as it is shown,
             \* mo |-> does the name end in `.mo']
  mode,      \* "format" or "check"
  code,      \* exit code so far
  reports,   \* what was reported: <<kind, shown path>>
  log        \* finished commands: [code, reports, fs]

Valid == {"good", "ugly", "crlf", "nonl", "extra", "empty", "nl"}
Formatted(c) == IF c \in {"empty", "nl"} THEN "nl" ELSE "good"
IsFormatted(c) == c = Formatted(c)

Exists(p) == p \in DOMAIN fs
Target(p) == IF Exists(p) /\ fs[p].t = "link" THEN fs[p].to ELSE p
IsDir(p) == Exists(Target(p)) /\ fs[Target(p)].t = "dir"

\* a path below a directory that cannot be entered cannot be reached
Reachable(p) == Exists(p) /\ ~fs[p].blocked /\ Exists(Target(p)) /\ ~fs[Target(p)].blocked

---------------------------------------------------------------------------
(* The files of a directory, in any order: here in the order of kids.      *)

Join(s, name) == IF s = "" THEN name ELSE s \o "/" \o name

RECURSIVE Below(_, _, _)
\* [f |-> Modelica files below directory p, bad |-> unreadable directories];
\* a link back to one of the directories above it (up) is not followed
Below(p, shown, up) ==
  LET dir == Target(p)
      nothing == [f |-> <<>>, bad |-> <<>>]
  IN IF dir \in up THEN nothing
     ELSE IF fs[dir].x THEN [nothing EXCEPT !.bad = <<shown>>]
     ELSE FoldLeft(LAMBDA acc, name :
            LET q == Join(dir, name)
                s == Join(shown, name)
            IN IF IsDir(q) /\ Reachable(q)
               THEN LET r == Below(q, s, up \cup {dir})
                    IN [f |-> acc.f \o r.f, bad |-> acc.bad \o r.bad]
               ELSE IF fs[q].mo
               THEN [acc EXCEPT !.f = Append(@, [p |-> IF Reachable(q) THEN Target(q) ELSE "",
                                                 s |-> s, mo |-> TRUE])]
               ELSE acc,
            nothing, fs[dir].kids)

---------------------------------------------------------------------------
(* Actions                                                                 *)

Say(kind, what) == Append(reports, <<kind, what>>)

\* an argument: [s |-> as written, b |-> how it begins the paths of the
\* files below it, p |-> path it denotes, dash |-> does it begin with `-']
Begin ==
  /\ phase = "begin" /\ commands # <<>>
  /\ LET as == commands[1].a
         word == IF as = <<>> THEN "" ELSE as[1].s
         dash == as # <<>> /\ as[1].dash
     IN CASE as = <<>> ->
               /\ phase' = "exit" /\ code' = 1 /\ reports' = Say("usage", "")
               /\ UNCHANGED <<args, files, mode>>
          [] word \in {"-h", "--help"} ->
               /\ phase' = "exit" /\ code' = 0 /\ reports' = Say("help", "")
               /\ UNCHANGED <<args, files, mode>>
          [] word \in {"-v", "--version"} ->
               /\ phase' = "exit" /\ code' = 0 /\ reports' = Say("version", "")
               /\ UNCHANGED <<args, files, mode>>
          [] word = "--check" /\ Len(as) = 1 ->
               /\ phase' = "exit" /\ code' = 1 /\ reports' = Say("usage", "")
               /\ UNCHANGED <<args, files, mode>>
          [] word = "--check" /\ Len(as) > 1 ->
               /\ phase' = "expand" /\ mode' = "check" /\ args' = Tail(as)
               /\ UNCHANGED <<files, code, reports>>
          [] dash /\ word \notin {"-h", "--help", "-v", "--version", "--check"} ->
               /\ phase' = "exit" /\ code' = 1 /\ reports' = Say("option", word)
               /\ UNCHANGED <<args, files, mode>>
          [] OTHER ->
               /\ phase' = "expand" /\ mode' = "format" /\ args' = as
               /\ UNCHANGED <<files, code, reports>>
  /\ UNCHANGED <<fs, commands, log>>

Expand ==
  /\ phase = "expand"
  /\ IF args = <<>> THEN phase' = "treat" /\ UNCHANGED <<args, files, code, reports>>
     ELSE
     /\ phase' = phase
     /\ args' = Tail(args)
     /\ LET a == args[1]
        IN IF IsDir(a.p) /\ Reachable(a.p)
           THEN LET b == Below(a.p, a.b, {})
                IN /\ files' = files \o b.f
                   /\ reports' = reports \o [i \in 1..Len(b.bad) |-> <<"error", IF b.bad[i] = a.b THEN a.s ELSE b.bad[i]>>]
                   /\ code' = IF b.bad = <<>> THEN code ELSE 1
           ELSE /\ files' = Append(files, [p |-> IF Reachable(a.p) THEN Target(a.p) ELSE "", s |-> a.s,
                                            mo |-> Exists(a.p) /\ fs[a.p].mo])
                /\ UNCHANGED <<code, reports>>
  /\ UNCHANGED <<fs, commands, mode, log>>

\* writing n fails
NotWritten(n) == n.l \/ (n.big /\ commands[1].full)

Treat ==
  /\ phase = "treat" /\ files # <<>>
  /\ LET f == files[1]
         n == fs[f.p]
     IN IF ~f.mo \/ f.p = "" \/ n.x \/ n.c = "latin"
        THEN code' = 1 /\ reports' = Say("error", f.s) /\ UNCHANGED fs
        ELSE IF n.c \notin Valid
        THEN code' = 1 /\ reports' = Say("syntax", f.s) /\ UNCHANGED fs
        ELSE IF mode = "check"
        THEN /\ reports' = Say(IF IsFormatted(n.c) THEN "passed" ELSE "failed", f.s)
             /\ code' = IF IsFormatted(n.c) THEN code ELSE 1
             /\ UNCHANGED fs
        ELSE IF NotWritten(n)
        THEN code' = 1 /\ reports' = Say("error", f.s) /\ UNCHANGED fs
        ELSE fs' = [fs EXCEPT ![f.p].c = Formatted(@)] /\ UNCHANGED <<code, reports>>
  /\ files' = Tail(files)
  /\ UNCHANGED <<commands, phase, args, mode, log>>

Exit ==
  /\ phase = "exit" \/ (phase = "treat" /\ files = <<>>)
  /\ log' = Append(log, [code |-> code, reports |-> reports, fs |-> fs, mode |-> mode])
  /\ commands' = Tail(commands)
  /\ phase' = "begin" /\ args' = <<>> /\ files' = <<>> /\ mode' = "none" /\ code' = 0
  /\ reports' = <<>>
  /\ UNCHANGED fs

Next == Begin \/ Expand \/ Treat \/ Exit

---------------------------------------------------------------------------
(* Properties                                                              *)

vars == <<fs, commands, phase, args, files, mode, code, reports, log>>

\* only format mode writes, and only valid files with a Modelica name, into
\* their formatted form
WritesOnlyFormatted ==
  \A p \in DOMAIN fs : fs'[p] # fs[p] =>
    /\ mode = "format"
    /\ files[1].p = p /\ files[1].mo
    /\ fs[p].t = "file" /\ fs[p].c \in Valid /\ ~NotWritten(fs[p])
    /\ fs'[p] = [fs[p] EXCEPT !.c = Formatted(fs[p].c)]
NothingAppears == DOMAIN fs' = DOMAIN fs
CheckWritesNothing == mode = "check" => fs' = fs

\* the exit code says whether everything was in order
Failures == {"error", "syntax", "failed", "usage", "option"}
CodeMeans == \A i \in 1..Len(log) :
  (log[i].code # 0) <=> (\E j \in 1..Len(log[i].reports) : log[i].reports[j][1] \in Failures)

=============================================================================
