-------------------------------- MODULE MCPairs --------------------------------
(***************************************************************************)
(* Every nonterminal inside every other.  A chain goes down the shortest   *)
(* way from StoredDefinition to the outer nonterminal and from there the   *)
(* shortest way to the inner one (which may be the same again).  A state   *)
(* is a chain and a way to derive and lay out a document along it:         *)
(*   small   the surroundings are as small as can be, and the choices of   *)
(*           the inner rule are made by a script (a transition takes one   *)
(*           more choice that is not the smallest, at most MaxDev of       *)
(*           them); plain, broken at each boundary in and around the inner *)
(*           nonterminal, at some pairs of them, and everywhere; with each *)
(*           string in it spanning lines                                   *)
(*   rich    everything beside the chain, or in the inner nonterminal, is  *)
(*           derived at random, and the document is almost all on one line *)
(***************************************************************************)
EXTENDS Docs, Chains
CONSTANTS MaxDev, Variants, RunSeed, Part, Parts, Emit
VARIABLES chain, way, script, dev, verdict, arity

ASSUME TablesReady
ASSUME ChainsReady

Text1(ch, sc) ==
  FoldLeft(LAMBDA acc, x : acc \o "/" \o x, "", ch) \o FoldLeft(LAMBDA acc, x : acc \o "." \o ToString(x), "", sc)

Hash(ch, sc) ==
  FoldLeft(LAMBDA acc, x : (acc * 31 + x + 7) % 65537, ChainHash(ch), sc)
Mine(ch, sc) == (Hash(ch, sc) + RunSeed) % Parts = Part

\* small surroundings
SmallDocs(ch, sc, dn) ==
  LET t == TreeOf(dn)
      ks == TLCEval(KindsOfTree(t))
      hs == Zeros(ks)
      n == Len(ks)
      plain == PlainGaps(ks)
      key == Hash(ch, sc)
      lo == IF dn.s.lo > 3 THEN dn.s.lo - 3 ELSE 1
      hi == IF dn.s.hi + 4 > n THEN n ELSE dn.s.hi + 4
      at(g, i, shape) == [g EXCEPT ![i] = GapAt(ks, i, shape)]
      many == sc # <<>>
      single == {<<i, i, j>> : i \in lo..hi, j \in {3, 4}}
      double == {p \in (lo..hi) \X (lo..hi) \X {3} : p[1] < p[2] /\ (p[1] * 5 + p[2] * 3 + key) % (IF many THEN 41 ELSE 7) = 0}
      other == {p \in (lo..hi) \X (lo..hi) \X (4..NShapes) :
                  /\ p[1] <= p[2] /\ p[2] < p[1] + 4
                  /\ (p[1] * 11 + p[2] * 7 + p[3] * 5 + key) % (IF many THEN 401 ELSE 101) = 0}
      sites == SetToSeq(single \cup double \cup other)
      doc(p) == Document(t, ks, at(at(plain, p[1], Shapes[p[3]]), p[2], <<"n">>), hs)
      \* at the second boundary a line end, unless it is the same boundary
      one(p) == IF p[1] = p[2] THEN Document(t, ks, at(plain, p[1], Shapes[p[3]]), hs) ELSE doc(p)
      everywhere == Document(t, ks, [i \in 1..(n + 1) |-> IF i = 1 THEN <<>> ELSE <<"n">>], hs)
      \* strings that span lines, after a blank, a line end or an empty line
      strings == SetToSeq({p \in (lo..hi) \X {2, 3, 4} : ks[p[1]] = "String"})
      tall(p) == Document(t, ks, at(plain, p[1], Shapes[p[2]]), [hs EXCEPT ![p[1]] = 1 + (key % 2)])
  IN <<Document(t, ks, plain, hs), everywhere>> \o [x \in 1..Len(strings) |-> tall(strings[x])] \o [x \in 1..Len(sites) |-> one(sites[x])]

\* rich surroundings
RichDoc(ch, v) ==
  LET r == Seed(RunSeed % 65537, Hash(ch, <<v>>))
      r2 == Rnd(r)
      r3 == Rnd(r2)
      dn == TLCEval(IF v % 2 = 0 THEN RuleDerivation(ch, r, 2 + Draw(r2, 20))
                    ELSE Along(ch, [Start(r, 4 + Draw(r2, 50), <<>>) EXCEPT !.md = "rnd", !.am = "rnd"]))
      t == TreeOf(dn)
      ks == TLCEval(KindsOfTree(t))
      gs == IF v % 3 = 2 THEN RandomGaps(ks, r3, v % 5) ELSE SparseGaps(ks, r3)
  IN Document(t, ks, gs, Heights(ks, Rnd(r3)))

Both(a, b) ==
  [x \in DOMAIN NoVerdict |-> IF x = "out" THEN <<>> ELSE a[x] /\ b[x]]

Examine(name, docs) ==
  LET one(acc, n) ==
        LET v == TLCEval(Verdict(docs[n]))
            said == Emit => PrintT("CASE " \o ToJson(Case(name \o "#" \o ToString(n), docs[n], v.out, n = 1)))
        IN IF said THEN Both(acc, v) ELSE acc
  IN FoldLeft(one, NoVerdict, [n \in 1..Len(docs) |-> n])

Small(ch, sc) ==
  LET dn == TLCEval(OwnDerivation(ch, sc, FALSE))
  IN [ar |-> dn.s.ar,
      v |-> IF Mine(ch, sc) THEN TLCEval(Examine(Text1(ch, sc), SmallDocs(ch, sc, dn))) ELSE NoVerdict]

Init == /\ chain \in AllChains
        /\ way = "none"
        /\ script = <<>>
        /\ dev = 0
        /\ verdict = NoVerdict
        /\ arity = <<>>
First ==
  /\ way = "none"
  /\ way' = "small"
  /\ LET e == Small(chain, <<>>) IN verdict' = e.v /\ arity' = e.ar
  /\ UNCHANGED <<chain, script, dev>>
Deviate ==
  /\ way = "small" /\ dev < MaxDev
  /\ \E p \in (Len(script) + 1)..Len(arity) :
       \E c \in 1..(arity[p] - 1) :
         LET sc == [i \in 1..p |-> IF i <= Len(script) THEN script[i] ELSE IF i < p THEN 0 ELSE c]
             e == Small(chain, sc)
         IN script' = sc /\ verdict' = e.v /\ arity' = e.ar
  /\ dev' = dev + 1
  /\ UNCHANGED <<chain, way>>
Enrich ==
  /\ way = "none"
  /\ way' = "rich"
  /\ \E v \in 1..Variants :
       /\ script' = <<v>>
       /\ verdict' = TLCEval(Examine("rich" \o Text1(chain, <<v>>), <<RichDoc(chain, v)>>))
  /\ UNCHANGED <<chain, dev, arity>>
Next == First \/ Deviate \/ Enrich

IndentationBalanced == verdict.balanced
OneSeparatorPerGap == verdict.separator
CommentsSurvive == verdict.comments
OutputTidy == verdict.tidy
TokensApart == verdict.gluing
LayoutIdempotent == verdict.idempotent
=============================================================================
