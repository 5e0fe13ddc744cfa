"""Compares what mofmt printed with what the specification predicts, and says
which properties a difference breaks.

The prediction of Layout.tla is a sequence of gaps, one per boundary between
two tokens: pieces ("s" blank, "n" line end, "L" "B" "M" "W" comments), the
indentation of the last line, the reason y that decides the boundary and the
break mode m ("" where the layout does not break the line).
"""
import docs


def shape(gap):
    """(pieces, comments, indents) of an actual gap; blanks that are neither
    one blank nor the indentation of a line are reported as "?"."""
    pieces, comments, indents = [], [], []
    for n, (kind, text) in enumerate(gap):
        if kind == "line" or kind == "block":
            pieces.append("c")
            comments.append(text)
            continue
        if "\n" not in text:
            pieces.append("s" if text == " " else "?")
            continue
        parts = text.split("\n")
        if any(p.strip(" ") for p in parts) or any(p for p in parts[:-1]):
            pieces.append("?")  # blanks before a line end, or not spaces
        pieces.extend("n" * (len(parts) - 1))
        indents.append(len(parts[-1]))
    return pieces, comments, indents


LAYOUT = ("C10", "C11", "C12", "C13", "C14", "C15")


def aspects(case, tokens, comments, actual):
    """The properties that the actual output breaks: {property: why}."""
    found = {}

    def add(why, *props):
        for p in props:
            found.setdefault(p, why)

    got, gaps = docs.read_text(actual)
    if got != tokens:
        i = next((j for j, (a, b) in enumerate(zip(got, tokens)) if a != b), min(len(got), len(tokens)))
        add(f"token {i + 1} of the output is {got[i:i + 1]} and not {tokens[i:i + 1]}", "C01")
        if i + 1 < len(tokens) and i < len(got) and got[i].startswith(tokens[i] + tokens[i + 1]):
            # what was between two tokens is missing
            pieces, _ind, y, _m = case["out"][i + 1]
            add(f"nothing between {tokens[i]!r} and {tokens[i + 1]!r}",
                *({"list": ["C12"], "expr": ["C13"], "line": ["C10"]}.get(y, ["C15"]) if "n" in pieces else ["C15"]))
        last = i  # boundaries that are still comparable: those before token i
        flat = [c for g in gaps for k, c in g if k != "blank"]
        want = [c for j, (p, _i, _y, m) in enumerate(case["out"]) if m for c in comments[j]]
        if not subsequence(want, flat):
            add("a comment at a line break is lost or changed", "C02")
    else:
        last = len(case["out"])
    for i in range(last):
        pieces, ind, y, m = case["out"][i]
        want = []
        for p in pieces:
            want.append("c" if p in "LBMW" else p)
        have, have_comments, indents = shape(gaps[i])
        where = f"before token {i + 1}" + (f" {tokens[i]!r}" if i < len(tokens) else " (end of file)")
        if m and have_comments != comments[i]:
            add(f"{where}: comments {have_comments} instead of {comments[i]}", "C02")
        if not m and have_comments != []:
            # a comment kept where the specification drops it is judged by the rest
            have = [p for p in have if p != "c"]
        if (m and have_comments != comments[i]) or have == want and indents == [2 * ind] * len(indents):
            if have == want and indents == [2 * ind] * len(indents):
                continue
        n_have, n_want = "n" in have, "n" in want
        if "?" in have:
            add(f"{where}: stray blanks {gaps[i]!r}", "C15")
            if any("\n" in t and t.split("\n")[-1].strip(" ") for k, t in gaps[i] if k == "blank"):
                add(f"{where}: indentation is not made of spaces {gaps[i]!r}", "C14")
        if n_have != n_want:
            why = f"{where}: a line break is {'missing' if n_want else 'not wanted'} ({gaps[i]!r})"
            if y == "list":
                add(why, "C12")
            elif y == "expr":
                add(why, "C13")
            elif y == "line":
                add(why, "C10")
            else:  # nothing may break the line here
                add(why, "C10", "C12", "C13")
            continue
        vertical = [p for p in have if p in "nc"] != [p for p in want if p in "nc"]
        if vertical:
            why = f"{where}: line ends and comments {have} instead of {want}"
            if have.count("c") == want.count("c"):
                add(why, "C11")
            if "c" in have or "c" in want:
                add(why, "C02")
        if indents and any(x != 2 * ind for x in indents):
            add(f"{where}: indented by {indents} instead of {2 * ind}", "C14")
        if not vertical and [p for p in have if p != "?"] != want and "?" not in have:
            add(f"{where}: spacing {have} instead of {want}", "C15")
    if not found:
        for p in LAYOUT:
            found[p] = "the output differs from the prediction"
    return found


def subsequence(want, have):
    it = iter(have)
    return all(any(x == y for y in it) for x in want)


def positions(text, offsets):
    """(line, column) of character offsets, counted from 1, as editors do."""
    out, line, start, at = [], 1, 0, 0
    for o in offsets:
        n = text.count("\n", at, o)
        if n:
            line += n
            start = text.rindex("\n", at, o) + 1
        at = o
        out.append((line, o - start + 1))
    return out
