"""Concrete texts for the abstract documents of the specification, and back.

A case (see Docs.tla) has token kinds k, heights h, gaps g and the predicted
output gaps.  render() writes it down; read_text() reads any text back into
tokens and gaps, without using mofmt.
"""
import hashlib
import re

COMMENTS = {
    "L": ["// c{}", "//c{} // again", "// {} e\u0301 \u00b5 \u6f22\u5b57", "// {} \"quote", "//{} x = 1; /* y */",
          "//   lead {}", "// trail {}  ", "// {} \u00e9", "/// {} ///", "//{}*/", "// {}\\", "//{} \U0001f600",
          "//\t{}\tb\t", "// {}\u00a0", "//{}\u3000 ", "// \u2028{}\u2029", "//\u0085{}", "// {}\x0b\x0c", "//{}\ufeff",
          "//-------- {} --------", "// end x; {} \"", "// {} /*", "//\x01{}\x7f"],
    "B": ["/* c{} */", "/*{}*/", "/** {} **/", "/* // {} */", "/* \" {} */", "/*\u00e9 {} \u00fc*/", "/*/ {} */",
          "/* {} ***/", "/* '{} ; end x; */", "/*{} \u6f22*/", "/*\t{}\t*/",
          "/*{}\u00a0*/", "/*\u2028{}\u3000*/", "/*{} /* */", "/* {} \\*/", "/*\x0b{}\x0c*/", "/*****{}*****/"],
    "M": ["/* a{}\n   b */", "/*{}\n*/", "/* {}\n\t* y \u00e9 */", "/*\n // {} */", "/** {}  \n**/",
          "/* {}\n\u00a0*\u3000\n*/".replace("\n*/", "*/"), "/*{}\n \t */"],
    "W": ["/* a{}\n   b\n\n c */", "/*{}\n\n\n*/", "/*\n * {}\n * \t\u00e9\n */", "/* {}\n// b\n\" c\n*/"],
}
PLAIN = {"L": "//", "B": "/**/", "M": "/*\n*/", "W": "/*\n\n\n*/"}
NONASCII = ['"\u00e9 \u00fc"', '"\u6f22\u5b57"', '"\U0001f600"']


class Rand:
    def __init__(self, *key):
        self.h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.x = int.from_bytes(self.h, "big") | 1

    def below(self, n):
        self.x = (self.x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.x >> 33) % n


class Lexis:
    def __init__(self, data):
        self.fixed = dict(data["punctuation"])
        self.fixed.update(data["keywords"])
        self.samples = data["samples"]
        self.keywords = {v: k for k, v in data["keywords"].items()}
        self.puncts = {v: k for k, v in data["punctuation"].items()}

    def lexeme(self, kind, height, rnd):
        if kind in self.fixed:
            return self.fixed[kind]
        pool = self.samples[kind + str(height)] if kind == "String" else self.samples[kind]
        if rnd.below(80) == 0:
            long = long_lexeme(kind, height, 20 + rnd.below(400))
            if long:
                return long
        if kind == "String" and height == 2 and rnd.below(3) == 0:
            return tall_string(rnd)
        if kind == "String" and height == 0 and rnd.below(5) == 0:
            return NONASCII[rnd.below(len(NONASCII))]
        if kind == "Identifier" and rnd.below(2):  # mostly ordinary names
            return pool[rnd.below(3)]
        return pool[rnd.below(len(pool))]

    def header(self):
        """What the probe needs to report token kinds."""
        items = dict(self.fixed)
        for k, v in self.samples.items():
            items["String" if k.startswith("String") else k] = v[0]
        items["LineComment"] = "// c"
        items["BlockComment"] = "/* c */"
        return "kinds\t" + "\t".join(f"{k}={v.encode().hex()}" for k, v in items.items()) + "\n"


def long_lexeme(kind, height, size):
    """An unusually long lexeme."""
    if kind == "Identifier":
        return "'" + "long name " * size + "'" if size % 3 == 0 else "long_name" * size
    if kind == "String" and height == 0:
        return '"' + "many words, " * size + '"'
    if kind == "UInt":
        return "9" * size
    if kind == "UReal":
        return "1" * size + "." + "3" * size + ("e" + "1" * size if size % 2 else "")
    return None


LINES = ["", "  text", "<p>", "\t* item \t", "// not a comment", "/* nor this */", "end x;", "    <li>\u00e9</li>  ", "\\n"]


def tall(rnd):
    """Some lines: at least two line ends, often many.  Where the layout asks
    whether something spans lines, all numbers but none are alike."""
    n = 3 + (rnd.below(300) if rnd.below(10) == 0 else rnd.below(20))
    return "\n".join(LINES[rnd.below(len(LINES))] for _ in range(n))


def tall_string(rnd):
    return '"' + tall(rnd).replace('"', "'") + '"'


def comment(piece, number, rnd):
    if piece == "W" and rnd.below(6) == 0:
        return "/* " + str(number) + tall(rnd).replace("*/", "*") + "*/"
    if rnd.below(12) == 0:
        return PLAIN[piece]
    pool = COMMENTS[piece]
    text = pool[rnd.below(len(pool)) if rnd.below(2) else 0].format(number)
    if rnd.below(80) == 0:  # unusually long
        text = text[:2] + "a long comment " * (20 + rnd.below(400)) + text[2:]
    return text


def blanks(rnd):
    if rnd.below(100) == 0:
        return " " * (50 + rnd.below(500))
    return ["  ", "\t", " \t ", "    ", " ", "\x0c", "  "][rnd.below(7)]


def comments_in(gap):
    """Does a gap have comments?"""
    return any(p not in ("s", "n") for p in gap)


class Rendered:
    """A text, its tokens and where they start, and the comments by gap."""

    def __init__(self, text, tokens, comments, starts):
        self.text, self.tokens, self.comments, self.starts = text, tokens, comments, starts


def render(case, lexis, variant=0):
    """The source text of a case.

    variant 0 writes every "s" as one blank and every "n" as a line feed; the
    others vary what the abstract gap leaves open: the number of blanks, blanks
    around line ends, the line end characters, and blank lines beyond the first.
    """
    kinds, heights, gaps = case["k"], case["h"], case["g"]
    rnd = Rand("tokens", case["id"])
    form = Rand("form", case["id"], variant)
    crlf = variant % 3 == 2
    eol = "\r\n" if crlf else "\n"
    fix = (lambda t: t.replace("\n", "\r\n")) if crlf else (lambda t: t)
    tokens = [fix(lexis.lexeme(k, h, rnd)) for k, h in zip(kinds, heights)]
    crnd = Rand("comments", case["id"])
    number = 0
    out, comments, starts, at = [], [], [], 0
    for i, gap in enumerate(gaps):
        mine = []
        text = []
        for j, p in enumerate(gap):
            if p == "s":
                text.append(" " if variant == 0 else blanks(form))
            elif p == "n":
                if variant:
                    after_l = j > 0 and gap[j - 1] == "L"
                    if not after_l and form.below(3) == 0:
                        text.append(blanks(form))
                    text.append(eol)
                    run = j >= 1 and gap[j - 1] == "n"
                    last = j + 1 == len(gap) or gap[j + 1] != "n"
                    if run and last and form.below(2):  # two or more line ends are alike
                        more = 5 + form.below(300) if form.below(30) == 0 else 1
                        text.append(((blanks(form) if form.below(2) else "") + eol) * more)
                    if form.below(2) and last:
                        text.append(blanks(form))
                else:
                    text.append(eol)
            else:
                number += 1
                c = fix(comment(p, number, crnd))
                mine.append(c)
                text.append(c)
        comments.append(mine)
        out.append("".join(text))
        at += len(out[-1])
        if i < len(tokens):
            out.append(tokens[i])
            starts.append(at)
            at += len(tokens[i])
    return Rendered("".join(out), tokens, comments, starts)


def expected(case, tokens, comments):
    """The predicted output of a rendered case."""
    out = []
    for i, (pieces, ind, _y, _m) in enumerate(case["out"]):
        out.append(gap_text(pieces, ind, comments[i]))
        if i < len(tokens):
            out.append(tokens[i])
    return "".join(out)


def gap_text(pieces, ind, comments):
    text, c = [], 0
    for j, p in enumerate(pieces):
        if p == "s":
            text.append(" ")
        elif p == "n":
            text.append("\n")
            if not (j + 1 < len(pieces) and pieces[j + 1] == "n"):
                text.append("  " * ind)
        else:
            text.append(comments[c])
            c += 1
    return "".join(text)


def pumped(case, rounds):
    """The document of so many rounds of a case of MCPump.tla, and what is
    predicted for it: Source, SeamGaps, Predicted and TreeOfRounds there."""
    u, v, w, z = case["u"] - 1, case["v"] - 1, case["w"], case["z"]
    n, up, down = len(case["k"]), v - u, z - w
    source = ([*range(u)] + [*range(u, v)] * rounds + [*range(v, w)] + [*range(w, z)] * rounds + [*range(z, n)])
    gaps = [case["g"][i] for i in source] + [case["g"][n]]
    for d in range(1, rounds):
        if up:
            gaps[u + d * up] = case["su"]
        if down:
            gaps[u + rounds * up + (w - v) + d * down] = case["sv"]
    four, by = case["out"], case["dl"]

    def deeper(part, more):
        return [[p, ind + more * by, y, m] for p, ind, y, m in part]
    y0 = u + 4 * up
    v0 = y0 + (w - v)

    def round_of(d, of):
        if d == 1:
            return of(1)
        return deeper(of(4), rounds - 4) if d == rounds else deeper(of(2), d - 2)
    ups = [x for d in range(1, rounds + 1) for x in round_of(d, lambda r: four[u + (r - 1) * up:u + r * up])]
    downs = [x for d in range(rounds, 0, -1)
             for x in round_of(d, lambda r: four[v0 + (4 - r) * down:v0 + (5 - r) * down])]
    t = case["tree"]
    return {"id": f"pump {case['id']} {rounds}", "k": [case["k"][i] for i in source],
            "h": [case["h"][i] for i in source], "g": gaps,
            "out": four[:u] + ups + deeper(four[y0:v0], rounds - 4) + downs + four[v0 + 4 * down:],
            "tree": t[0] + t[1] * rounds + t[2] + t[3] * rounds + t[4]}


TOKEN = re.compile(r"""
    (?P<blank>[ \t\n\r\f]+)
  | (?P<line>//[^\r\n]*)
  | (?P<block>/\*.*?\*/)
  | (?P<string>"(?:\\.|[^"\\])*")
  | (?P<quoted>'(?:\\.|[^'\\\n])*')
  | (?P<number>[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]*)?)
  | (?P<word>[A-Za-z_][A-Za-z_0-9]*)
  | (?P<punct>\.[-+*/^]|:=|==|<>|<=|>=|[;,+\-*^(){}\[\]:=<>./])
  | (?P<other>.)
""", re.X | re.S)


def read_text(text):
    """Tokens of a text and the gaps between them; a gap is a list of
    (kind, text) with kind blank, line or block."""
    tokens, gaps, gap = [], [], []
    for m in TOKEN.finditer(text):
        kind = m.lastgroup
        if kind in ("blank", "line", "block"):
            gap.append((kind, m.group()))
        else:
            gaps.append(gap)
            gap = []
            tokens.append(m.group())
    gaps.append(gap)
    return tokens, gaps
