"""Traces: what mofmt did with a text, for MCTrace.tla to check.

The texts are written by people (texts/ and the samples of the repository),
with their gaps changed at random, and the mutants that are sentences."""
import glob
import os

import corpus
import docs
import judge
import probe

GAPS = [" ", "\n", "\n\n", "\n\n\n\n", "  ", "\t", " // c{}\n", "\n// c{}\n", "\n\n// c{}\n\n", " /* c{} */ ", "/* c{} */",
        "\n/* c{} */\n", " /* c{}\n c */ ", "\n/* c{}\n\n\n c */\n\n", "\n  // c{}\n  // d\n\n  // e\n", " // c{}\n\n\n// d\n",
        " /* c{} */ /* d */\n", "\n/* c{} */ /* d */ ", "\n/* c{} */ // d\n", "\n\n/* c{}\n */\n// d\n/* e */\n\n",
        " /* c{} */\n\n /* d\n */ ", "\n \n", " \n", "\n\t "]


def texts():
    for path in sorted(glob.glob(os.path.join(probe.VERIF, "texts", "*.mo"))
                       + glob.glob(os.path.join(probe.REPO, "tests", "samples", "*.mo"))):
        with open(path, encoding="utf-8", newline="") as f:
            yield os.path.basename(path), f.read().replace("\r\n", "\n")


def regapped(text, name, n, seed):
    """The text with some of its gaps changed: every n-th variant more of them."""
    if n == 0:
        return text
    rnd = docs.Rand("regap", name, n, seed)
    share = [1, 5, 15, 30, 60][n % 5]
    tokens, gaps = docs.read_text(text)
    out, number = [], 0
    for i, gap in enumerate(gaps):
        new = "".join(t for _k, t in gap)
        if rnd.below(100) < share:
            new = GAPS[rnd.below(6 if rnd.below(3) else len(GAPS))]
            if "{}" in new:
                number += 1
                new = new.format(number)
            # a comment must not become a part of what precedes it
            if new.startswith("/*") and i and tokens[i - 1][-1:] in "/.":
                new = " " + new
        out.append(new)
        if i < len(tokens):
            out.append(tokens[i])
    return "".join(out)


def pieces(gap):
    """The pieces of a gap of a source text."""
    out = []
    for kind, text in gap:
        if kind == "blank":
            n = text.count("\n")
            out.extend(["n"] * n if n else ["s"])
        elif kind == "line":
            out.append("L")
        else:
            out.append("M" if "\n" in text else "B")
    return out


def printed(gap):
    """A gap of an output as MCTrace compares it: pieces, and the blanks after
    the last line end (-1: no line end)."""
    shown, _comments, indents = judge.shape(gap)
    kinds = iter("L" if k == "line" else "M" if "\n" in t else "B" for k, t in gap if k != "blank")
    level = -1
    if indents:
        level = indents[0] if len(set(indents)) == 1 else -2
    return [[next(kinds) if p == "c" else p for p in shown], level]


class Text:
    """One text, as written, in one of its variants."""

    def __init__(self, name, text, entry="StoredDefinition", group=None):
        self.name, self.text, self.entry, self.group = name, text, entry, group or name
        self.tokens, self.gaps = docs.read_text(text)
        self.comments = [[t for k, t in g if k != "blank"] for g in self.gaps]


def files(ctx, variants):
    """Files: the texts in several variants, and mutants."""
    for name, text in texts():
        for n in range(variants):
            yield Text(f"{name} {n}", regapped(text, name, n, ctx.seed), group=name)
    for c in ctx.mutants():
        if c["bad"] == 0:
            yield Text(c["id"], docs.render(c, ctx.lexis).text)


def fragments(ctx):
    for c in ctx.fragment_mutants():
        if c["bad"] == 0 and c["k"]:
            yield Text(c["id"], docs.render(c, ctx.lexis).text, c["entry"])


def answered(ctx, found, flags="teF"):
    found = list(found)
    return list(zip(found, probe.ask(ctx.header, [probe.request(flags, x.text, x.entry) for x in found])))


def verdicts(ctx, pairs):
    """What TLC says: yields (text, answer, accepted, where, layout or None)
    for the texts that mofmt accepted."""
    traces, index = [], {}
    for n, (x, a) in enumerate(pairs):
        if a.get("errors") or a.get("panic") or "out" not in a:
            continue
        kinds = [t[0] for t in a["tokens"]]
        events = ["." if e == "Advance" else "X" if e == "Exit" else e[6:-1] for e in a["events"]]
        got, gaps = docs.read_text(a["out"])
        if got != x.tokens or [t[1] for t in a["tokens"]] != x.tokens:
            yield x, a, None, "", None
            continue
        key = (x.group, tuple(kinds), tuple(events))
        if key not in index:
            index[key] = len(traces)
            traces.append({"entry": x.entry, "k": kinds, "h": [t.count("\n") for t in x.tokens], "e": events, "d": []})
        traces[index[key]]["d"].append({
            "i": n, "g": [pieces(g) for g in x.gaps],
            "o": [printed(g) for g in gaps]})
    cases, stats = corpus.trace_corpus(traces)
    ctx.stats.append(stats)
    for c in cases:
        layouts = {d["i"]: d for d in c["layouts"]}
        for d in traces[c["id"] - 1]["d"]:
            x, a = pairs[d["i"]]
            where = f"event {c['at']} in {c['rule']}"
            yield x, a, c["accepted"], where, layouts.get(d["i"])


def wrong(prop, x, a, accepted, where, layout):
    """What is wrong with a trace, as far as it concerns the property (C22
    concerns all of it)."""
    if accepted is None:
        if prop in ("C01", "C22"):
            yield "the tokens of the output are not those of the source"
        return
    if not accepted:
        if prop in ("C07", "C22"):
            yield f"the parse tree is no derivation: {where}"
        return
    if layout is None:
        return
    if not layout["same"]:
        found = judge.aspects({"out": layout["out"]}, x.tokens, x.comments, a["out"])
        if prop in found:
            yield found[prop]
        elif prop == "C22":
            yield next(iter(found.values()))
    elif prop in ("C02", "C22"):
        _tokens, gaps = docs.read_text(a["out"])
        for mine, gap in zip(x.comments, gaps):
            kept = [t for k, t in gap if k != "blank"]
            if kept and kept != mine:
                yield f"the comments {mine} became {kept}"
                return
