"""The checks of the properties.  Every check takes a Context, runs mofmt on
what the specification generated and returns nothing; it reports violations
and what it covered to the context."""
import hashlib
import json
import os
import re
import time

import cli
import corpus
import docs
import judge
import probe
import traces

ALPHABET = {"a", "e", "_", "0", "1", ".", "+", "-", "*", "/", "^", "=", ":", "<", ">", "(", ";", "DQ", "SQ",
            "BS", "NL", "CR", " ", "u2", "#", "FF", "VT"}
CHARS = {"NUL": "\0", "SOH": "\x01", "BEL": "\x07", "ESC": "\x1b", "DEL": "\x7f", "NBSP": "\u00a0", "NEL": "\u0085",
         "LS": "\u2028", "BOM": "\ufeff", "NL": "\n", "CR": "\r", "TAB": "\t", "FF": "\x0c", "VT": "\x0b", "DQ": '"',
         "SQ": "'", "BS": "\\",
         "u2": "\u00e9", "u3": "\u6f22", "u4": "\U0001f600"}
MAX_VIOLATIONS = 5


class Enough(Exception):
    """Violations enough have been found."""


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.violations, self.samples, self.known = [], [], []
        self.stats = []
        self.counts = {}
        self.start = time.time()
        self.lexis = docs.Lexis(corpus.lexis_json())
        self.header = self.lexis.header()
        self.distinct = set()

    # -- what a check reports ------------------------------------------------
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def seen(self, text):
        self.distinct.add(hashlib.blake2b(text.encode(errors="replace"), digest_size=8).digest())

    def sample(self, what, limit=3):
        if len(self.samples) < limit:
            self.samples.append(what)

    def violation(self, why, **replay):
        self.violations.append({"property": self.prop, "why": why, **replay})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Enough()

    def corpus(self, model, **constants):
        cases, stats = corpus.corpus(model, **constants)
        self.stats.append(stats)
        return cases

    # -- corpora ---------------------------------------------------------------
    def random(self, jobs=None, first=1):
        return self.corpus("MCRandom", RunSeed=self.seed % 65537, FirstJob=first,
                           Jobs=jobs or RANDOM_JOBS)

    def scripts(self, dev, stride, part=0, parts=1, own=False):
        return self.corpus("MCScripts", MaxDev=dev, Stride=stride, Part=part, Parts=parts, OwnRule=own)

    def pairs(self, dev, variants, part=0, parts=1, seed=None):
        seed = self.seed if seed is None else seed
        return self.corpus("MCPairs", MaxDev=dev, Variants=variants, RunSeed=seed % 65537, Part=part, Parts=parts)

    def mutants(self, jobs=None, first=1):
        return self.corpus("MCMutants", RunSeed=self.seed % 65537, FirstJob=first,
                           Jobs=jobs or MUTANT_JOBS, Whole=True)

    def fragments(self, jobs=None):
        return self.corpus("MCFragments", RunSeed=self.seed % 65537, Jobs=jobs or FRAGMENT_JOBS)

    def fragment_mutants(self, jobs=None, first=1):
        return self.corpus("MCMutants", RunSeed=self.seed % 65537, FirstJob=first,
                           Jobs=jobs or FRAGMENT_JOBS, Whole=False)

    def pumps(self, jobs=None, first=1):
        return self.corpus("MCPump", RunSeed=self.seed % 65537, FirstJob=first, Jobs=jobs or PUMP_JOBS)

    def long_documents(self, jobs=None, first=1):
        """Documents of many rounds: all of some hundred tokens, some of as
        many as the call stack allows, and a few of more than 65 536 tokens."""
        huge = HUGE
        for c in self.pumps(jobs, first):
            size = max(1, c["v"] - c["u"] + c["z"] - c["w"])
            rnd = docs.Rand("rounds", c["id"], self.seed)
            want = 300 + rnd.below(600) if rnd.below(12) else 2000 + rnd.below(3000)
            if c["list"] and huge and size <= 40 and c["id"] % 7 == 0:
                huge -= 1
                want = 66000 + rnd.below(6000)
            rounds = 5 + want // size
            if not c["list"]:
                rounds = min(rounds, 5 + NESTING // c["levels"])
            yield docs.pumped(c, rounds)

    def documents(self):
        """Batches of (cases, variants) of documents with predicted outputs."""
        yield self.random(), (0, 1, 2)
        yield list(self.long_documents()), (0, 1)
        yield self.scripts(1, 9), (0,)
        yield self.scripts(3, 37, own=True), (0,)
        yield self.pairs(0, PAIR_VARIANTS), (0,)
        yield self.pairs(1, 0, self.seed % PAIR_PARTS, PAIR_PARTS), (0,)
        yield self.scripts(2, 9, self.seed % SCRIPT_PARTS, SCRIPT_PARTS), (0,)
        if self.thorough:
            for n in range(THOROUGH_ROUNDS):
                if self.late():
                    return
                yield self.random(THOROUGH_JOBS, 1_000_000 * (n + 1)), (0, 1, 2)
                yield list(self.long_documents(PUMP_JOBS, 1_000_000 * (n + 1))), (0, 1, 2)
                yield self.pairs(1, PAIR_VARIANTS, (self.seed + n + 1) % PAIR_PARTS, PAIR_PARTS, self.seed + n + 1), (0,)
                yield self.scripts(2, 9, (self.seed * 7 + 31 * n + 1) % SCRIPT_PARTS, SCRIPT_PARTS), (0,)

    def late(self):
        return time.time() - self.start > THOROUGH_SECONDS


RANDOM_JOBS = 11000
MUTANT_JOBS = 4000
FRAGMENT_JOBS = 4000
PUMP_JOBS = 320
TRACE_VARIANTS = 60  # of each text that people wrote
HUGE = 12  # documents of more than 65 536 tokens
NESTING = 800  # levels of the derivation that rounds may be nested
LEXER_JOBS = 4000
CLI_JOBS = 1500
SCRIPT_PARTS = 60
PAIR_VARIANTS = 12  # of the surroundings of each pair of nonterminals
PAIR_PARTS = 4
THOROUGH_ROUNDS = 12
THOROUGH_JOBS = 8000
THOROUGH_SECONDS = 1500


def quick_corpora(seed):
    """Everything the quick checks take from TLC."""
    ctx = Context("setup", "quick", seed)
    for _ in ctx.documents():
        pass
    ctx.mutants()
    viable(ctx)
    twists(ctx, 2, False)
    twists(ctx, 1, True)
    lexer(ctx)
    cli_cases(ctx)
    ctx.fragments()
    ctx.fragment_mutants()
    viable(ctx, whole=False)
    viable(ctx, 3, True, True)
    viable(ctx, 1, True, True, True)
    viable(ctx, 3, False, True)
    twists(ctx, 2, False, False)
    for pairs in (traces.files(ctx, TRACE_VARIANTS), traces.fragments(ctx)):
        for _ in traces.verdicts(ctx, traces.answered(ctx, pairs)):
            pass
    return ctx.stats


def viable(ctx, dev=1, whole=True, own=False, everywhere=False, part=0, parts=1):
    return ctx.corpus("MCViable", MaxDev=dev, Whole=whole, OwnRule=own, Everywhere=everywhere, Part=part, Parts=parts)


def twists(ctx, dev, phrased, whole=True):
    return ctx.corpus("MCTwists", MaxDev=dev, Phrased=phrased, Whole=whole)


def lexer(ctx, length=3, jobs=None):
    return ctx.corpus("MCLexer", Alphabet=ALPHABET, MaxLen=length, RunSeed=ctx.seed % 65537,
                      Jobs=jobs or LEXER_JOBS, JobLen=30)


def cli_cases(ctx, jobs=None):
    return ctx.corpus("MCCli", RunSeed=ctx.seed % 65537, Jobs=jobs or CLI_JOBS, Permissions=cli.can_drop())


# ---------------------------------------------------------------------------
# Formatting: C01-C05, C10-C16

def run_documents(ctx, flags="f", variants=None):
    """Yields (case, [(rendered, answer)...]) for every document."""
    for cases, vs in ctx.documents():
        vs = variants or vs
        for at in range(0, len(cases), 20000):
            part = cases[at:at + 20000]
            made = [[docs.render(c, ctx.lexis, v) for v in vs] for c in part]
            requests = [probe.request(flags, r.text) for rs in made for r in rs]
            answers = probe.ask(ctx.header, requests)
            k = len(vs)
            for n, (c, rs) in enumerate(zip(part, made)):
                yield c, list(zip(rs, answers[n * k:(n + 1) * k]))


def trouble(answer):
    return "panic" if answer.get("panic") else "errors" if answer.get("errors") else None


def note_document(ctx, case, r):
    ctx.count("documents formatted")
    if any(p not in ("s", "") for g in case["g"] for p in g):
        ctx.seen(r.text)
    if len(case["k"]) > 8:
        ctx.sample({"source": r.text})


def layout_check(ctx):
    """C01, C02, C10-C15: the output against the prediction of Layout.tla."""
    for case, runs in run_documents(ctx):
        for r, a in runs:
            if trouble(a):
                ctx.count("documents without output")
                continue
            note_document(ctx, case, r)
            want = docs.expected(case, r.tokens, r.comments)
            if a["out"] == want:
                continue
            ctx.count("outputs that differ from the prediction")
            found = judge.aspects(case, r.tokens, r.comments, a["out"])
            if ctx.prop in found:
                ctx.violation(found[ctx.prop], case=case["id"], source=r.text, expected=want, actual=a["out"])
    trace_check(ctx)


def trace_check(ctx):
    """What mofmt did with files, checked by TLC (MCTrace.tla)."""
    pairs = traces.answered(ctx, traces.files(ctx, TRACE_VARIANTS if not ctx.thorough else 5 * TRACE_VARIANTS))
    for x, a, accepted, where, layout in traces.verdicts(ctx, pairs):
        for why in traces.wrong(ctx.prop, x, a, accepted, where, layout):
            ctx.violation(why, case=x.name, source=x.text, actual=a["out"])
        ctx.count("traces checked")
        ctx.seen(x.text)


def preservation_of_mutants(ctx):
    """C01 on the texts that are sentences by chance: no tree is predicted,
    but the tokens are known."""
    cases = ctx.mutants()
    made = [docs.render(c, ctx.lexis) for c in cases]
    answers = probe.ask(ctx.header, [probe.request("F", r.text) for r in made])
    for c, r, a in zip(cases, made, answers):
        if trouble(a) or "out" not in a:
            continue
        note_document(ctx, c, r)
        if ctx.prop == "C01":
            got, _ = docs.read_text(a["out"])
            if got != r.tokens:
                ctx.violation("the tokens of the output are not those of the source", source=r.text, actual=a["out"])
        elif a.get("out2") != a["out"]:
            ctx.violation("formatting the output changes it", source=r.text, actual=a["out"], again=a.get("out2"))


def tokens_check(ctx):
    layout_check(ctx)
    preservation_of_mutants(ctx)


def idempotence_check(ctx):
    for case, runs in run_documents(ctx, "F"):
        for r, a in runs:
            if "out" not in a:
                continue
            note_document(ctx, case, r)
            if a.get("out2") != a["out"] or a.get("errors2"):
                ctx.violation("formatting the output changes it", case=case["id"], source=r.text,
                              actual=a["out"], again=a.get("out2"), panic=a.get("panic"))
    for x, a in traces.answered(ctx, traces.files(ctx, 4 * TRACE_VARIANTS), "F"):
        if "out" in a and (a.get("out2") != a["out"] or a.get("errors2")):
            ctx.violation("formatting the output changes it", case=x.name, source=x.text, actual=a["out"],
                          again=a.get("out2"), panic=a.get("panic"))
        ctx.count("documents formatted")
    preservation_of_mutants(ctx)


def own_line_ends(text):
    """The text with the line ends inside strings and block comments made line
    feeds: there they belong to the token or comment."""
    return docs.TOKEN.sub(lambda m: m.group().replace("\r\n", "\n") if m.lastgroup in ("string", "block")
                          else m.group(), text)


def same_text(a, b):
    return a == b or own_line_ends(a) == own_line_ends(b)


def blanks_check(ctx):
    """C16: texts that differ only in blanks have the same output."""
    for case, runs in run_documents(ctx, "f", (0, 1, 2) if not ctx.thorough else (0, 1, 2, 4, 5)):
        (r0, a0), rest = runs[0], runs[1:]
        note_document(ctx, case, r0)
        for r, a in rest:
            ctx.count("pairs compared")
            if trouble(a) != trouble(a0):
                ctx.violation(f"{trouble(a) or 'no errors'} instead of {trouble(a0) or 'no errors'}",
                              source=r0.text, other=r.text)
            elif not trouble(a) and not same_text(a["out"], a0["out"]):
                ctx.violation("the output depends on blanks", case=case["id"], source=r0.text, other=r.text,
                              expected=a0["out"], actual=a["out"])


# ---------------------------------------------------------------------------
# C04: every text is answered

def damaged(case, r, n):
    """A text with a few characters changed."""
    rnd = docs.Rand("damage", case["id"], n)
    t = r.text
    pool = ["", "/*", "*/", "//", '"', "'", "\\", "\n", "\r", "\u00e9", "\U0001f600", "(", ")", "{", "}", "[", "]",
            ";", "end", "if", "=", ".", "\x00", "\ufeff", "1e", "annotation", " for "]
    for _ in range(1 + rnd.below(3)):
        at = rnd.below(len(t) + 1)
        to = min(len(t), at + rnd.below(4))
        t = t[:at] + pool[rnd.below(len(pool))] + t[to:]
        if rnd.below(4) == 0:
            t = t[:rnd.below(len(t) + 1)]
    return t


def big_texts():
    """Larger texts, within what fits the call stack of a test program."""
    def model(body):
        return "model A\n" + body + "\nend A;\n"
    n, deep = 400, 60
    yield model("Real x = " + "(" * deep + "1" + ")" * deep + ";")
    yield model("Real x = " + "{" * deep + "1" + "}" * deep + ";")
    yield model("Real x = " + "f(" * deep + "1" + ")" * deep + ";")
    yield model("Real x = {" + ", ".join(["1"] * n) + "};")
    yield model("Real x = f(" + ", ".join(f"a{i} = {i}" for i in range(n)) + ");")
    yield model("Real x = f(" + ",\n ".join(["b"] * n) + ");")
    yield model("Real x = [" + ";\n".join(["1, 2"] * n) + "];")
    yield model("Real x = " + " + ".join(["y"] * 5 * n) + ";")
    yield model("Real x = " + "\n * ".join(["y"] * 5 * n) + ";")
    yield model("\n".join(f"Real x{i} \"d\" annotation(A = 1);" for i in range(5 * n)))
    yield model("\n".join(f"// c{i}" for i in range(5 * n)) + " Real x;")
    yield model("/* " + "*" * 10000 + "*/")
    yield model("Real x \"" + "y\\\"" * 5000 + "\";")
    yield model("equation\n" + "if a then\n" * deep + "x = 1;\n" + "end if;\n" * deep)
    yield model("equation x = " + "if a then 1 else " * deep + "2;")
    yield "model A model B\n" * 40 + "end B;\n" * 0 + "Real x; " + "end B; " * 40 + "end A;"
    yield "\n" * 50000 + "model A end A;" + "\n" * 50000
    yield "model " * 500
    yield ") " * 500
    yield "model A equation " + "( " * 300
    yield "." * 1000
    yield "\"" * 1001
    yield "model A " + "annotation " * 200
    yield "x" * 100000
    # long texts without nesting and without lists: these have no limit
    long = 120_000
    yield "// c\n" * long + "model A end A;\n"
    yield model("/* c */" * long + " Real x;")
    yield model("\n\n".join(["// c"] * long) + "\n Real x;")
    yield model("Real x; " + "/* c\n d */\n" * long)
    yield "model A end A;\n" + "// c\n" * long
    yield model("Real x \"" + "line\n" * long + "\";")
    yield model("Real x;" + " " * long + "\n" * long + "Real y;")
    yield "(" + ")" * long
    yield "\"a\" " * long
    yield "#" * long
    yield "." + "'q'" * long
    yield model("\"\\\"" * long)


FORMATTERS = ("F",)


def totality_check(ctx):
    def judge_all(texts, flags="teF"):
        answers = probe.ask(ctx.header, [probe.request(flags, t) for t in texts])
        for t, a in zip(texts, answers):
            ctx.count("texts answered")
            ctx.seen(t)
            if a.get("panic"):
                ctx.violation(a["panic"][:300], source=t if len(t) < 5000 else t[:2000] + " ...")

    for case, runs in run_documents(ctx, "F"):
        for r, a in runs:
            ctx.count("texts answered")
            ctx.seen(r.text)
            if a.get("panic"):
                ctx.violation(a["panic"][:300], case=case["id"], source=r.text)
    mutants = ctx.mutants()
    made = [docs.render(c, ctx.lexis) for c in mutants]
    judge_all([r.text for r in made])
    texts = []
    for n in range(2 if not ctx.thorough else 10):
        for c in ctx.random():
            r = docs.render(c, ctx.lexis)
            texts.append(damaged(c, r, n))
    ctx.sample({"source": texts[0]})
    judge_all(texts)
    judge_all(["".join(CHARS.get(x, x) for x in c["x"]) for c in lexer(ctx)])
    judge_all(list(big_texts()))
    judge_all([x.text for x in traces.files(ctx, 4 * TRACE_VARIANTS)])
    if ctx.thorough:
        judge_all(["".join(CHARS.get(x, x) for x in c["x"]) for c in lexer(ctx, 4, 40000)])
        judge_all([docs.render(c, ctx.lexis).text for c in ctx.mutants(40000, 1_000_000)])
    # every prefix of some documents
    texts = []
    for c in ctx.random()[:(60 if not ctx.thorough else 1000)]:
        t = docs.render(c, ctx.lexis).text
        texts.extend(t[:i] for i in range(len(t)))
    judge_all(texts, "F")
    known_findings(ctx)


def known_findings(ctx):
    """Inputs that are known to fail; see known-findings.txt."""
    for key, text in KNOWN_TEXTS.items():
        line = KNOWN.get(key)
        if not line:
            continue
        a = probe.Answers(ctx.header, [probe.request("F", text())], 60).run()[0]
        ctx.count("known findings tried")
        if a.get("panic"):
            ctx.known.append(line)


KNOWN_TEXTS = {
    "wide-list": lambda: "model A\n  Real x = {" + ", ".join(["1"] * 50000) + "};\nend A;\n",
    "deep-parentheses": lambda: "model A\n  Real x = " + "(" * 5000 + "1" + ")" * 5000 + ";\nend A;\n",
}


def read_known():
    found = {}
    path = os.path.join(probe.VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
                if m:
                    found[m.group(2)] = (m.group(1), m.group(3))
    return found


KNOWN = read_known()


# ---------------------------------------------------------------------------
# C05, C06, C09: the language

PLAIN = {"Identifier": "x", "UInt": "1", "UReal": "1.5", "Bool": "true", "String": '"s"'}
# tokens that mofmt looks past before it decides, so that it may point at the
# token before the wrong one
LOOKAHEAD_PREV = {"Dot", "Initial"}
LOOKAHEAD_WRONG = {"Equal"}


def plain_text(lex, kinds):
    """(starts, text) of token kinds written down with ordinary lexemes, some
    in a new line, some strings of two lines."""
    text, starts, at = [], [], 0
    for i, k in enumerate(kinds):
        t = lex.fixed.get(k) or PLAIN[k]
        if k == "String" and (i + len(kinds)) % 3 == 0:
            t = '"s\n s"'
        starts.append(at)
        text += [t, "\n" if (2 * i + len(kinds)) % 9 == 0 else " "]
        at += len(t) + 1
    return starts, "".join(text)


def twisted_texts(ctx, dev, phrased):
    """As viable_texts, of the near misses of MCTwists."""
    done = set()
    for c in twists(ctx, dev, phrased):
        key = tuple(c["k"])
        if key not in done:
            done.add(key)
            yield (c["k"], c["bad"], *plain_text(ctx.lexis, c["k"]))


def viable_texts(ctx, dev):
    """(kinds, bad, tokens, starts, text): bad 0 sentence, n the wrong token,
    n = Len + 1 the end, None: nothing is wrong before the end."""
    lex = ctx.lexis
    kinds = sorted(list(lex.fixed) + list(PLAIN))
    done = set()

    def make(ks, bad):
        return (ks, bad, *plain_text(lex, ks))

    near = viable(ctx, dev) + viable(ctx, 3, own=True)
    far = viable(ctx, 1, own=True, everywhere=True)
    for n, c in enumerate(near + far):
        pre = c["k"]
        key = tuple(pre)
        if key in done:
            continue
        done.add(key)
        both = ctx.thorough or n < len(near)
        ok = set(c["ok"])
        yield make(pre, 0 if c["done"] else len(pre) + 1)
        for k in kinds:
            if k in ok:
                yield make(pre + [k], None)
            else:
                # put in, and put in the place of what should be there
                n += 1
                if both or n % 2:
                    yield make(pre + [k] + c["rest"], len(pre) + 1)
                if both or n % 2 == 0:
                    yield make(pre + [k] + c["rest"][1:], len(pre) + 1)


ERROR = re.compile(r":(\d+):(\d+): ", re.S)


def place(error, name):
    if not error.startswith(name + ":"):
        return None
    m = ERROR.match(error, len(name))
    return (int(m.group(1)), int(m.group(2))) if m else None


def wrong_places(kinds, bad, where):
    """Where a report on the wrong token may point."""
    if bad > len(kinds):
        return where[-1:] or [(1, 1)]
    want = [where[bad - 1]]
    if bad > 1 and (kinds[bad - 2] in LOOKAHEAD_PREV or kinds[bad - 1] in LOOKAHEAD_WRONG):
        want.append(where[bad - 2])
    return want


NO_CLASS = ["RParen", "RBracket", "Colon", "End", "Else", "Semicolon", "Identifier", "UInt", "String", "Equation",
            "Within",
            "Public", "Extends", "Dot", "LParen", "Annotation"]


def long_texts(ctx):
    """Long documents with a token after their end that begins no class."""
    for n, c in enumerate(ctx.long_documents()):
        if not c["k"] or c["k"][-1] != "Semicolon":
            continue
        r = docs.render(c, ctx.lexis, 1)
        kind = NO_CLASS[(n + ctx.seed) % len(NO_CLASS)]
        text = r.text + "\n" * (1 + n % 2)
        yield (c["k"] + [kind], len(c["k"]) + 1, r.starts + [len(text)],
               text + (ctx.lexis.fixed.get(kind) or PLAIN[kind]) + "\n")


def language_texts(ctx):
    """(kinds, bad, starts, text, answer, name) from all three sources."""
    def batches():
        yield list(viable_texts(ctx, 1))
        yield list(twisted_texts(ctx, 2, False))
        yield list(twisted_texts(ctx, 1, True))
        made = []
        for c in ctx.mutants():
            r = docs.render(c, ctx.lexis, 0)
            made.append((c["k"], c["bad"], r.starts, r.text))
        yield made
        yield list(long_texts(ctx))
        if ctx.thorough:
            for n in range(5):
                made = []
                for c in ctx.mutants(20000, 1_000_000 * (n + 1)):
                    r = docs.render(c, ctx.lexis, 0)
                    made.append((c["k"], c["bad"], r.starts, r.text))
                yield made
            yield list(twisted_texts(ctx, 3, False))
            yield list(twisted_texts(ctx, 2, True))
            yield list(viable_texts(ctx, 2))
    for batch in batches():
        for at in range(0, len(batch), 100000):
            part = batch[at:at + 100000]
            names = ["doc.mo" if i % 5 else "a b/\u00e9:1:1.mo" for i in range(len(part))]
            answers = probe.ask(ctx.header, [probe.request("", t, name=n) for (_k, _b, _s, t), n in zip(part, names)])
            for (k, b, s, t), a, n in zip(part, answers, names):
                yield k, b, s, t, a, n


def language_check(ctx):
    prop = ctx.prop
    if prop == "C05":
        for case, runs in run_documents(ctx, "f"):
            for r, a in runs:
                ctx.count("sentences parsed")
                ctx.seen(r.text)
                if a.get("errors"):
                    ctx.violation(f"rejected: {a['errors'][0]}", case=case["id"], source=r.text)
        for x, a in traces.answered(ctx, traces.files(ctx, TRACE_VARIANTS), ""):
            ctx.count("sentences parsed")
            if a.get("errors"):
                ctx.violation(f"rejected: {a['errors'][0]}", case=x.name, source=x.text)
    if prop == "C09":
        lexical_errors(ctx)
    for kinds, bad, starts, text, a, name in language_texts(ctx):
        errors = a.get("errors")
        if errors is None:
            continue  # C04
        if prop == "C05":
            if bad == 0:
                ctx.count("sentences parsed")
                ctx.seen(text)
                if errors:
                    ctx.violation(f"rejected: {errors[0]}", source=text)
            elif bad is None and errors:
                # all tokens can be there: what is wrong is the end
                ctx.count("viable prefixes parsed")
                ctx.seen(text)
                at = place(errors[0], name)
                if at is None:
                    continue
                if kinds and at < judge.positions(text, starts)[-1]:
                    ctx.violation(f"a token before the end is rejected: {errors[0]}", source=text)
        elif prop == "C06":
            if bad:
                ctx.count("texts that are not sentences")
                ctx.seen(text)
                ctx.sample({"source": text, "first wrong token": bad, "reported": errors[:1]})
                if not errors:
                    ctx.violation(f"accepted, although token {bad} cannot be there", source=text)
        elif prop == "C09":
            if not errors:
                continue
            ctx.count("error reports")
            ctx.seen(text)
            where = judge.positions(text, starts)
            places = [place(e, name) for e in errors]
            if None in places:
                ctx.violation(f"no position: {errors[places.index(None)]!r}", source=text)
                continue
            stray = [p for p in places if p not in where and (where or p != (1, 1))]
            if stray:
                ctx.violation(f"no token starts at {stray[0]}: {errors[places.index(stray[0])]!r}", source=text)
                continue
            if not bad:
                continue
            ctx.sample({"source": text, "first wrong token": bad, "reported": errors[0]})
            want = wrong_places(kinds, bad, where)
            if places[0] not in want:
                ctx.violation(f"reported at {places[0]}, but what is wrong is at {want}: {errors[0]!r}", source=text)


def lexical_errors(ctx):
    """C09: what is no token is reported where it begins."""
    cases = [c for c in lexer(ctx) if c["bad"]]
    texts = [[CHARS.get(x, x) for x in c["x"]] for c in cases]
    answers = probe.ask(ctx.header, [probe.request("", "".join(t)) for t in texts])
    for c, chars, a in zip(cases, texts, answers):
        if "errors" not in a:
            continue
        text = "".join(chars)
        ctx.count("error reports")
        ctx.seen(text)
        places = [place(e, "doc.mo") for e in a["errors"]]
        at = judge.positions(text, [c["bad"] - 1])[0]
        if None in places:
            ctx.violation(f"no position: {a['errors'][places.index(None)]!r}", source=text)
        elif at not in places:
            ctx.violation(f"nothing is reported at {at}, where something that is no token begins: {a['errors'][:2]}",
                          source=text)


# ---------------------------------------------------------------------------
# C07: the parse tree

def tree_text(events):
    """A parse tree as text, without nodes that have no tokens."""
    stack, ok = [["", []]], True
    for e in events:
        if e == "Advance":
            stack[-1][1].append(".")
        elif e == "Exit":
            if len(stack) < 2:
                return "more exits than entries"
            name, kids = stack.pop()
            if kids:
                stack[-1][1].append(f"({name} {''.join(kids)})")
        else:
            m = re.fullmatch(r"Enter\((\w+)\)", e)
            stack.append([m.group(1) if m else e, []])
    if len(stack) != 1:
        return "more entries than exits"
    return "".join(stack[0][1])


BUILT = re.compile(r"""
    (?P<open>Tree\s\{\skind:\s(?P<name>\w+),\schildren:\s\[)
  | (?P<token>Token\(Token\s\{\sidx:\s\d+,\stext:\s"(?:[^"\\]|\\.)*",\skind:\s.*?,
     \sstart:\sPosition\s\{[^}]*\},\send:\sPosition\s\{[^}]*\}\s\}\))
  | (?P<close>\]\s\})
  | (?P<other>Tree\(|\)|,\s)
""", re.X | re.S)


def built_text(debug):
    """The tree of build_tree, from its debug text, in the same form."""
    out, at = [], 0
    while at < len(debug):
        m = BUILT.match(debug, at)
        if not m:
            return None
        at = m.end()
        if m.lastgroup == "name" or m.group("open"):
            out.append("(" + m.group("name") + " ")
        elif m.group("token"):
            out.append(".")
        elif m.group("close"):
            out.append(")")
    text = "".join(out)
    return "" if re.fullmatch(r"\(\w+ \)", text) else text


def tree_check(ctx):
    trace_check(ctx)

    def batches():
        for cases, _ in ctx.documents():
            yield [c for c in cases if c["tree"] or not c["k"]]
    for cases in batches():
        for at in range(0, len(cases), 20000):
            part = cases[at:at + 20000]
            made = [docs.render(c, ctx.lexis) for c in part]
            answers = probe.ask(ctx.header, [probe.request("eb", r.text) for r in made])
            for c, r, a in zip(part, made, answers):
                if a.get("errors") or "events" not in a:
                    continue  # C05, C04
                ctx.count("parse trees compared")
                ctx.seen(c["tree"])
                if len(c["k"]) > 8:
                    ctx.sample({"source": r.text, "tree": c["tree"]})
                got = tree_text(a["events"])
                if got != c["tree"]:
                    ctx.violation(f"the parse tree is {got}", case=c["id"], source=r.text, expected=c["tree"])
                    continue
                built = built_text(a["built"]) if "built" in a else None
                if built is not None:
                    ctx.count("built trees compared")
                    if built != c["tree"]:
                        ctx.violation(f"the built tree is {built}", case=c["id"], source=r.text, expected=c["tree"])


# ---------------------------------------------------------------------------
# C08: the scanner

def lexer_check(ctx):
    sets = [lexer(ctx)]
    if ctx.thorough:
        sets.append(lexer(ctx, 4, 60000))
    for cases in sets:
        texts = [[CHARS.get(x, x) for x in c["x"]] for c in cases]
        answers = probe.ask(ctx.header, [probe.request("t", "".join(t)) for t in texts])
        for c, chars, a in zip(cases, texts, answers):
            text = "".join(chars)
            if "tokens" not in a:
                continue  # C04
            ctx.count("texts scanned")
            ctx.seen(text)
            for key in ("t", "c"):
                want = [lexeme(x, chars) for x in c[key]]
                got = [(k, t) for k, t, *_ in a["tokens" if key == "t" else "comments"]]
                if c["bad"]:
                    got = got[:len(want)]
                if got != want:
                    ctx.violation(f"scanned as {got} and not {want}", source=text)
            if c["bad"]:
                at = judge.positions(text, [c["bad"] - 1])[0]
                if at not in [place(e, "doc.mo") for e in a["errors"]]:
                    ctx.violation(f"no error for the lexeme at {at}: {a['errors'][:2]}", source=text)
            elif not c["t"] and a["errors"]:
                ctx.violation(f"errors in a text of blanks and comments: {a['errors'][0]}", source=text)
            check_places(ctx, text, [x for x in c["t"]], a["tokens"])
            check_places(ctx, text, [x for x in c["c"]], a["comments"])
            if len(c["t"]) > 4:
                ctx.sample({"source": text, "tokens": [list(lexeme(x, chars)) for x in c["t"]]})
    # tokens and positions in whole documents
    cases = ctx.random() + list(ctx.long_documents())
    made = [docs.render(c, ctx.lexis, i % 3) for i, c in enumerate(cases)]
    answers = probe.ask(ctx.header, [probe.request("t", r.text) for r in made])
    for c, r, a in zip(cases, made, answers):
        if "tokens" not in a:
            continue
        ctx.count("documents scanned")
        ctx.seen(r.text)
        got = [(k, t) for k, t, *_ in a["tokens"]]
        want = list(zip(c["k"], r.tokens))
        if got != want:
            i = next((j for j, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            ctx.violation(f"token {i + 1} is {got[i:i + 1]} and not {want[i:i + 1]}", source=r.text)
            continue
        if [x[1] for x in a["comments"]] != [x for g in r.comments for x in g]:
            ctx.violation("the comments are not those of the source", source=r.text)
            continue
        check_places(ctx, r.text, [(k, s + 1, s + len(t)) for k, s, t in zip(c["k"], r.starts, r.tokens)], a["tokens"])


def lexeme(x, chars):
    return (x[0], "".join(chars[x[1] - 1:x[2]]))


def check_places(ctx, text, spans, tokens):
    """Lines and columns of lexemes."""
    starts = judge.positions(text, [s[1] - 1 for s in spans])
    ends = judge.positions(text, [s[2] - 1 for s in spans])
    for s, e, t in zip(starts, ends, tokens):
        if (t[4], t[5]) != s:
            ctx.violation(f"{t[1]!r} starts at {(t[4], t[5])} and not at {s}", source=text)
            return
        if t[7] != e[0]:
            ctx.violation(f"{t[1]!r} ends on line {t[7]} and not {e[0]}", source=text)
            return


# ---------------------------------------------------------------------------
# C22: every production as the start symbol

def fragment_check(ctx):
    def documents(cases, variants):
        made = [(c, docs.render(c, ctx.lexis, v)) for c in cases for v in variants]
        answers = probe.ask(ctx.header, [probe.request("ebF", r.text, c["entry"]) for c, r in made])
        for (c, r), a in zip(made, answers):
            fragment(ctx, c, r, a)
    documents(ctx.fragments(), (0, 1))
    if ctx.thorough:
        documents(ctx.fragments(20000), (0, 1, 2))
    for x, a, accepted, where, layout in traces.verdicts(ctx, traces.answered(ctx, traces.fragments(ctx))):
        for why in traces.wrong("C22", x, a, accepted, where, layout):
            ctx.violation(f"{x.entry}: {why}", case=x.name, entry=x.entry, source=x.text, actual=a["out"])
        ctx.count("traces checked")
    batch = list(fragment_texts(ctx))
    answers = probe.ask(ctx.header, [probe.request("F", t, e) for e, _k, _b, _s, t in batch])
    for (entry, kinds, bad, starts, text), a in zip(batch, answers):
        ctx.count("fragments judged")
        errors = a.get("errors") or []
        where = judge.positions(text, starts)
        if a.get("panic"):
            ctx.violation(f"{entry}: {a['panic'][:300]}", entry=entry, source=text)
        elif bad == 0 and errors:
            ctx.violation(f"{entry}: rejected: {errors[0]}", entry=entry, source=text)
        elif bad and not errors:
            ctx.violation(f"{entry}: accepted, although token {bad} cannot be there", entry=entry, source=text)
        elif errors:
            at = place(errors[0], "doc.mo")
            want = wrong_places(kinds, bad, where) if bad else where[-1:] or [(1, 1)]
            if at not in want:
                ctx.violation(f"{entry}: reported at {at}, but what is wrong is at {want}: {errors[0]!r}",
                              entry=entry, source=text)


def fragment(ctx, c, r, a):
    ctx.count("fragments formatted")
    ctx.seen(c["entry"] + ":" + r.text)
    if len(c["k"]) > 8:
        ctx.sample({"entry": c["entry"], "source": r.text})
    more = {"entry": c["entry"], "case": c["id"], "source": r.text}
    if a.get("panic"):
        return ctx.violation(f"{c['entry']}: {a['panic'][:300]}", **more)
    if a["errors"]:
        return ctx.violation(f"{c['entry']}: rejected: {a['errors'][0]}", **more)
    want = docs.expected(c, r.tokens, r.comments)
    if a["out"] != want:
        why = judge.aspects(c, r.tokens, r.comments, a["out"])
        return ctx.violation(f"{c['entry']}: {next(iter(why.values()))}", expected=want, actual=a["out"], **more)
    if a.get("out2") != a["out"]:
        return ctx.violation(f"{c['entry']}: formatting the output changes it", actual=a["out"], again=a.get("out2"), **more)
    if tree_text(a["events"]) != c["tree"]:
        return ctx.violation(f"{c['entry']}: the parse tree is {tree_text(a['events'])}", expected=c["tree"], **more)
    built = built_text(a["built"])
    if built is not None and built != c["tree"]:
        ctx.violation(f"{c['entry']}: the built tree is {built}", expected=c["tree"], **more)


def fragment_texts(ctx):
    """(entry, kinds, bad, starts, text), as language_texts."""
    kinds = sorted(list(ctx.lexis.fixed) + list(PLAIN))
    done = set()

    def make(entry, ks, bad):
        return (entry, ks, bad, *plain_text(ctx.lexis, ks))
    for c in viable(ctx, 1 if not ctx.thorough else 2, False) + viable(ctx, 3, False, True):
        pre, entry = c["k"], c["entry"]
        if (entry, *pre) in done:
            continue
        done.add((entry, *pre))
        ok = set(c["ok"])
        yield make(entry, pre, 0 if c["done"] else len(pre) + 1)
        for k in kinds:
            if k not in ok:
                yield make(entry, pre + [k] + c["rest"], len(pre) + 1)
                yield make(entry, pre + [k] + c["rest"][1:], len(pre) + 1)
    for c in twists(ctx, 2, False, False):
        key = (c["entry"], *c["k"])
        if key not in done:
            done.add(key)
            yield make(c["entry"], c["k"], c["bad"])
    for c in ctx.fragment_mutants() if not ctx.thorough else ctx.fragment_mutants(40000):
        r = docs.render(c, ctx.lexis, 0)
        yield c["entry"], c["k"], c["bad"], r.starts, r.text


# ---------------------------------------------------------------------------
# C17-C21: the command line tool

def cli_check(ctx):
    cases = cli_cases(ctx)
    sets = [cases]
    if ctx.thorough:
        sets.append(cli_cases(ctx, 20000))
    texts = cli.Texts(ctx.lexis, ctx.random()[:800], ctx.mutants()[:400])
    for cases in sets:
        replay = cli.Replay(texts, cli.can_drop())
        try:
            for at in range(0, len(cases), 2000):
                for run in replay.run(cases[at:at + 2000]):
                    ctx.count("histories replayed")
                    ctx.count("commands run", len(run["steps"]))
                    key = json.dumps([run["case"][x] for x in ("files", "links", "full", "cmds")])
                    ctx.seen(key)
                    if len(run["case"]["files"]) > 2:
                        ctx.sample({"commands": run["case"]["cmds"], "files": run["case"]["files"],
                                    "predicted": [[s["want"]["code"], s["want"]["reports"]] for s in run["steps"]]})
                    bad = cli.judge(run, lambda key: KNOWN.get(key, ("",))[0] == ctx.prop)
                    for key in run["known"]:
                        if KNOWN[key] not in ctx.known:
                            ctx.known.append(KNOWN[key])
                    for prop, why in bad:
                        if prop == ctx.prop:
                            ctx.violation(why, history={"files": run["case"]["files"], "links": run["case"]["links"],
                                                        "full": run["case"]["full"], "cmds": run["case"]["cmds"],
                                                        "closed": run["case"]["closed"]},
                                          answers=[[s["code"], s["out"][-500:], s["err"][-500:]] for s in run["steps"]])
                            break
        finally:
            replay.close()


CHECKS = {
    "C01": tokens_check, "C02": layout_check, "C03": idempotence_check, "C04": totality_check,
    "C05": language_check, "C06": language_check, "C07": tree_check, "C08": lexer_check,
    "C09": language_check, "C10": layout_check, "C11": layout_check, "C12": layout_check,
    "C13": layout_check, "C14": layout_check, "C15": layout_check, "C16": blanks_check,
    "C17": cli_check, "C18": cli_check, "C19": cli_check, "C20": cli_check, "C21": cli_check,
    "C22": fragment_check,
}
NEEDS_CLI = {"C17", "C18", "C19", "C20", "C21"}
