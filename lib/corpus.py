"""Runs TLC on the models of /verif/spec and keeps what they print.

A corpus is everything one TLC run printed (one JSON object per CASE line) and
the statistics of that run.  It depends on nothing but the specification, the
model's constants and the seed, so it is kept in /verif/.build and made again
whenever one of these changes.  What mofmt does is never kept.
"""
import gzip
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from probe import BUILD, CORES, VERIF, ToolError

SPEC = os.path.join(VERIF, "spec")
STORE = os.path.join(BUILD, "corpus")
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
INVARIANTS = {
    "MCRandom": "IndentationBalanced OneSeparatorPerGap CommentsSurvive OutputTidy TokensApart LayoutIdempotent",
    "MCScripts": "IndentationBalanced OneSeparatorPerGap CommentsSurvive OutputTidy TokensApart LayoutIdempotent",
    "MCPairs": "IndentationBalanced OneSeparatorPerGap CommentsSurvive OutputTidy TokensApart LayoutIdempotent",
    "MCFragments": "IndentationBalanced OneSeparatorPerGap CommentsSurvive OutputTidy TokensApart LayoutIdempotent",
    "MCPump": "SameTokens GrowsWithTheText",
    "MCTrace": "TokensInOrder",
    "MCViable": "PrefixesViable SentencesComplete FewConfigurations",
    "MCMutants": "ReadIsViable SameVerdict",
    "MCTwists": "VerdictInRange",
    "MCCli": "CodeMeans CleanAfterFormat FormatStable Finishes",
    "MCLexer": "LexemesTile LexemesStable LongestMatch CommentsNeverTokens",
}


TEMPORAL = {"MCCli": "StepsAllowed"}


def tla(value):
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, int):
        return str(value)
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(v) for v in value)) + "}"
    return '"' + value + '"'


def config(model, constants, invariants=None):
    if model in TEMPORAL:
        lines = ["SPECIFICATION Spec", "PROPERTIES " + TEMPORAL[model], "CHECK_DEADLOCK FALSE"]
    else:
        lines = ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"]
    names = invariants if invariants is not None else INVARIANTS[model]
    if names:
        lines.append("INVARIANTS " + names)
    if constants:
        lines.append("CONSTANTS")
        lines += [f" {k} = {tla(v)}" for k, v in sorted(constants.items())]
    return "\n".join(lines) + "\n"


def spec_hash(model):
    """A hash of the module and the modules it extends."""
    h = hashlib.sha256()
    todo, done = [model], set()
    while todo:
        name = todo.pop()
        path = os.path.join(SPEC, name + ".tla")
        if name in done or not os.path.exists(path):
            continue
        done.add(name)
        with open(path, encoding="utf-8") as f:
            text = f.read()
        for m in re.finditer(r"^(?:EXTENDS|INSTANCE)\s+([\w, ]+)", text, re.M):
            todo.extend(x.strip() for x in m.group(1).split(","))
    for name in sorted(done):
        with open(os.path.join(SPEC, name + ".tla"), "rb") as f:
            h.update(name.encode() + b"\0" + f.read())
    return h.hexdigest()


def tlc(model, cfg, limit, lines=None, extra=(), files=(), heap=None):
    """Runs TLC; hands every CASE object to `lines`; returns statistics."""
    work = tempfile.mkdtemp(prefix="tlc", dir=ensure(os.path.join(BUILD, "work")))
    try:
        with open(os.path.join(work, "M.cfg"), "w") as f:
            f.write(cfg)
        for name, text in files:
            with open(os.path.join(work, name), "w") as f:
                f.write(text)
        heap = heap or "10g"
        cmd = ["java", "-Djava.io.tmpdir=" + work, "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS,
               "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(CORES), "-metadir",
               os.path.join(work, "states"), "-config", os.path.join(work, "M.cfg"), *extra,
               os.path.join(SPEC, model + ".tla")]
        start = time.time()
        env = dict(os.environ, LC_ALL="C.UTF-8")
        p = subprocess.Popen(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace", env=env)
        tail, cases = [], 0
        for line in p.stdout:
            if line.startswith('"CASE '):
                cases += 1
                if lines:
                    lines(json.loads(line)[5:])
            else:
                tail.append(line)
            if time.time() - start > limit:
                p.kill()
                raise ToolError(f"TLC on {model} took more than {limit} s")
        p.wait()
        text = "".join(tail)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", text)
        stats = {"model": model, "cases": cases, "tlc_s": round(time.time() - start, 1), "text": text,
                 "rc": p.returncode, "generated": int(m.group(1)) if m else 0,
                 "states": int(m.group(2)) if m else 0}
        return stats
    finally:
        shutil.rmtree(work, ignore_errors=True)


def ensure(path):
    os.makedirs(path, exist_ok=True)
    return path


def trace_corpus(traces, limit=600):
    """What MCTrace says about the traces.  It is kept under their contents."""
    text = json.dumps(traces, separators=(",", ":"))
    return corpus("MCTrace", limit, None, (("traces.json", text),), TraceFile="traces.json")


def corpus(model, limit=1500, invariants=None, files=(), **constants):
    """(cases, statistics) of a model; the cases are parsed lazily."""
    if not files:
        constants.setdefault("Emit", True)
    cfg = config(model, constants, invariants)
    key = hashlib.sha256((spec_hash(model) + model + cfg + repr(files)).encode()).hexdigest()[:24]
    path = os.path.join(ensure(STORE), f"{model}-{key}.gz")
    fresh = not os.path.exists(path)
    if fresh:
        tmp = path + f".{os.getpid()}"
        with gzip.open(tmp, "wt", compresslevel=1, encoding="utf-8") as f:
            stats = tlc(model, cfg, limit, lambda s: f.write(s + "\n"), files=files)
            if stats["rc"] != 0 or "No error has been found" not in stats["text"]:
                os.unlink(tmp)
                raise ToolError(f"TLC on {model}: {stats['text'][-3000:]}")
            stats.pop("text")
            stats["constants"] = {k: (sorted(v) if isinstance(v, (set, frozenset)) else v)
                                  for k, v in constants.items()}
            f.write(json.dumps({"stats": stats}) + "\n")
        os.replace(tmp, path)
    with gzip.open(path, "rt", encoding="utf-8") as f:
        lines = f.read().split("\n")
    lines = [x for x in lines if x]
    stats = json.loads(lines.pop())["stats"]
    stats["made_now"] = fresh
    # TLC's workers print in any order
    lines.sort()
    return [json.loads(x) for x in lines], stats


def lexis_json():
    """The spelling tables of Lexis.tla."""
    key = spec_hash("MCLexis")[:24]
    path = os.path.join(ensure(STORE), f"lexis-{key}.json")
    if not os.path.exists(path):
        got = []
        stats = tlc("MCLexis", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", 120, got.append)
        if stats["rc"] != 0 or len(got) != 1:
            raise ToolError("TLC on MCLexis: " + stats["text"][-2000:])
        with open(path + ".tmp", "w") as f:
            f.write(got[0])
        os.replace(path + ".tmp", path)
    with open(path) as f:
        return json.load(f)
