"""Replays the histories of MCCli.tla on the real command line tool.

Every history runs in a scratch directory of its own, as an unprivileged user
when the sandbox allows that (so that permissions mean something)."""
import multiprocessing
import os
import re
import resource
import shutil
import signal
import subprocess
import tempfile

import docs
import probe

NOBODY = 65534
OLD = 1_000_000_000_000_000_000  # a time stamp that nothing gets by itself
LIMIT = 16384  # bytes that a full disk still takes


def real(path):
    """A path of the model as it is in the file system."""
    return path.replace("<E9>", "\udce9").replace("<U>", "\u00e4\u6f22")


def shown(path, root):
    """A path of the model as mofmt shows it."""
    path = path.replace("<E9>", "\ufffd").replace("<U>", "\u00e4\u6f22")
    return root + path[1:] if path.startswith("@/") else path


def full_disk():
    """No file can be written beyond LIMIT."""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (LIMIT, LIMIT))


class Texts:
    """Concrete contents for the abstract ones of Cli.tla."""

    def __init__(self, lexis, valid, mutants):
        self.plain, self.single, self.parts, self.wrong = [], [], [], []
        for case in valid:
            r = docs.render(case, lexis)
            out = docs.expected(case, r.tokens, r.comments) + "\n"
            if r.text != out and case["k"]:
                self.plain.append((r.text, out))
                # nothing in it has line ends of its own
                if not any(case["h"]) and not any("M" in g or "W" in g for g in case["g"]):
                    self.single.append((r.text, out))
                    if case["k"][0] != "Within" and not docs.comments_in(case["g"][0] + case["g"][-1]):
                        self.parts.append((r.text.strip(), out))
        for case in mutants:
            if case["bad"]:
                self.wrong.append(docs.render(case, lexis).text)

    def large(self, rnd):
        """(source, formatted) of some size: many classes, one below the other."""
        size = LIMIT + 1 + rnd.below(300000)
        source, out, n = [], [], 0
        while n <= size:
            s, o = self.parts[rnd.below(len(self.parts))]
            source.append(s)
            out.append(o)
            n += len(o.encode())
        return "\n".join(source), "".join(out)

    def content(self, form, key, big=False, small=False):
        """(bytes, formatted bytes or None) of an abstract content."""
        rnd = docs.Rand("cli", key)

        def pick(pool):
            while True:
                x = pool[rnd.below(len(pool))]
                if not small or len(x[1].encode()) < LIMIT:
                    return x
        if big and form in ("ugly", "good"):
            src, out = self.large(rnd)
            return (src if form == "ugly" else out).encode(), out.encode()
        if form == "syntax":
            return self.wrong[rnd.below(len(self.wrong))].encode(), None
        if form == "lexical":
            text = pick(self.single)[0]
            bad = ["\n#\n", "\n\"never closed", "\n/* never closed", "\n'q id", "\n\u00e9\n", "\n?"][rnd.below(6)]
            return (bad + text if rnd.below(2) and bad[-1] == "\n" else text + bad).encode(), None
        if form == "latin":
            return b"// caf\xe9\n" + pick(self.plain)[0].encode(), None
        if form == "empty":
            return b"", b"\n"
        if form == "nl":
            return b"\n", b"\n"
        if form == "ugly":
            src, out = pick(self.plain)
            return src.encode(), out.encode()
        out = pick(self.single)[1]
        text = {"good": out, "crlf": out.replace("\n", "\r\n"), "nonl": out[:-1], "extra": out + "\n"}[form]
        return text.encode(), out.encode()


def can_drop():
    """May this process run others as an unprivileged user?"""
    try:
        d = tempfile.mkdtemp(prefix="mofmt-user")
        try:
            os.chown(d, NOBODY, NOBODY)
            os.chmod(d, 0o700)
            r = subprocess.run(["touch", os.path.join(d, "x")], user=NOBODY, group=NOBODY, extra_groups=[],
                               capture_output=True)
            if r.returncode:
                return False
            os.chmod(os.path.join(d, "x"), 0)
            r = subprocess.run(["cat", os.path.join(d, "x")], user=NOBODY, group=NOBODY, extra_groups=[],
                               capture_output=True)
            return r.returncode != 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    except (OSError, ValueError, PermissionError, subprocess.SubprocessError):
        return False


CURRENT = None


def run_one(case):
    return CURRENT.one(case)


class Replay:
    def __init__(self, texts, drop):
        self.texts, self.drop = texts, drop
        self.base = tempfile.mkdtemp(prefix="mofmt-cli")
        os.chmod(self.base, 0o755)
        self.tool = os.path.join(self.base, "mofmt")
        shutil.copy(probe.CLI, self.tool)
        os.chmod(self.tool, 0o755)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def run(self, cases):
        global CURRENT
        CURRENT = self
        with multiprocessing.get_context("fork").Pool(probe.CORES) as pool:
            return pool.map(run_one, cases, chunksize=8)

    def one(self, case):
        root = os.path.join(self.base, f"w{case['id']}")
        os.mkdir(root)
        try:
            return self.history(case, root)
        finally:
            subprocess.run(["chmod", "-R", "u+rwX", root], capture_output=True)
            shutil.rmtree(root, ignore_errors=True)

    def history(self, case, root):
        for d in case["dirs"]:
            os.makedirs(os.path.join(root, real(d)), exist_ok=True)
        blobs = {}  # path -> {form: bytes}
        for f in case["files"]:
            raw, good = self.texts.content(f["c"], (case["id"], f["p"]), f["big"], case["full"])
            blobs[real(f["p"])] = {f["c"]: raw}
            if good is not None:
                blobs[real(f["p"])]["nl" if f["c"] in ("empty", "nl") else "good"] = good
            path = os.path.join(root, real(f["p"]))
            with open(path, "wb") as h:
                h.write(raw)
            os.chmod(path, 0o200 if f["x"] else 0o444 if f["l"] else 0o644)
        for f in case["links"]:
            path = os.path.join(root, real(f["p"]))
            os.symlink(os.path.relpath(os.path.join(root, real(f["to"])), os.path.dirname(path)), path)
        if self.drop:
            for d, ds, fs in os.walk(root):
                for n in ds + fs:
                    os.chown(os.path.join(d, n), NOBODY, NOBODY, follow_symlinks=False)
            os.chown(root, NOBODY, NOBODY)
        if case["closed"]:
            os.chmod(os.path.join(root, "no"), 0)
        steps = []
        for cmd, want in zip(case["cmds"], case["log"]):
            for f in case["files"]:
                os.utime(os.path.join(root, real(f["p"])), ns=(OLD, OLD))
            before = self.snapshot(root)
            kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.drop else {}
            if case["full"]:
                kw["preexec_fn"] = full_disk
            words = [os.path.join(root, real(a[2:])) if a.startswith("@/") else real(a) for a in cmd]
            try:
                r = subprocess.run([self.tool] + words, cwd=root, capture_output=True, timeout=30, **kw)
                code, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                code, out, err = -1, "", "no answer within 30 s"
            after = self.snapshot(root)
            steps.append({"cmd": cmd, "want": want, "code": code, "out": out, "err": err,
                          "before": before, "after": after})
        return {"case": case, "blobs": blobs, "steps": steps, "root": root}

    @staticmethod
    def snapshot(root):
        """path -> (bytes, time stamp, inode, permissions) of every file"""
        snap = {}
        for d, ds, fs in os.walk(root):
            for n in fs:
                p = os.path.join(d, n)
                st = os.lstat(p)
                if os.path.islink(p):
                    snap[os.path.relpath(p, root) + "/"] = os.readlink(p)
                    continue
                with open(p, "rb") as h:
                    snap[os.path.relpath(p, root)] = (h.read(), st.st_mtime_ns, st.st_ino, st.st_mode)
            for n in ds:
                p = os.path.join(d, n)
                snap[os.path.relpath(p, root) + "/"] = os.readlink(p) if os.path.islink(p) else None
        return snap


def reports(out, err):
    """What the tool said: [(kind, path)], and lines that say nothing known."""
    found, odd = [], []
    lines = out.split("\n")
    i = 0
    while i < len(lines):
        line = lines[i]
        i += 1
        m = re.fullmatch(r"(.*): check (passed|failed)", line)
        if m:
            found.append((m.group(2), m.group(1)))
        elif line == "Syntax errors detected:":
            names = set()
            while i < len(lines):
                m = re.match(r"(.*?):(\d+):(\d+): ", lines[i])
                if not m:
                    break
                names.add(m.group(1))
                i += 1
            found.extend(("syntax", n) for n in sorted(names))
            if len(names) != 1:
                odd.append(f"errors of {sorted(names)} in one report")
        elif line:
            odd.append(line)
    for line in err.split("\n"):
        m = re.match(r"(.*?): error: ", line)
        if m:
            found.append(("error", m.group(1)))
        elif line:
            odd.append(line)
    return found, odd


def judge(run, known=lambda key: False):
    """[(property, why)] for a replayed history."""
    bad = []
    run["known"] = set()
    now = {real(f["p"]): f["c"] for f in run["case"]["files"]}
    # is a directory among the arguments?
    directories = {".", *run["case"]["dirs"]}
    dirs = any(os.path.normpath(a.removeprefix("@/")) in directories for s in run["steps"] for a in s["cmd"]) or any(
        f["to"] in directories for f in run["case"]["links"])
    for n, s in enumerate(run["steps"]):
        want = s["want"]
        where = f"command {n + 1} {['mofmt'] + s['cmd']}: "

        def add(why, *props):
            bad.extend((p, where + why) for p in props)

        told = [(k, shown(p, run["root"])) for k, p in want["reports"]]
        kinds = {k for k, _ in told}
        if s["code"] not in (0, 1):
            add(f"exit status {s['code']}: {s['err'][-300:]}", "C04", "C19", "C21")
        forms = {real(f["p"]): f["c"] for f in want["files"]}
        # files
        for p in sorted(set(s["before"]) | set(s["after"])):
            if p.endswith("/"):
                if (p in s["before"]) != (p in s["after"]) or s["before"][p] != s["after"][p]:
                    add(f"directory or link {p} appeared, changed or vanished", "C17" if want["mode"] == "check" else "C20")
                continue
            b, a = s["before"].get(p), s["after"].get(p)
            if b is None or a is None:
                add(f"file {p} appeared or vanished", "C17" if want["mode"] == "check" else "C20")
                continue
            if want["mode"] == "check" and a != b:
                add(f"{p} was written in check mode", "C17")
                continue
            expect = run["blobs"][p][forms[p]]
            valid = now[p] in ("good", "ugly", "crlf", "nonl", "extra", "empty", "nl")
            if a[0] != expect:
                if run["case"]["full"] and valid and a[0] == run["blobs"][p].get("good", b"")[:LIMIT]:
                    if known("short-write"):
                        run["known"].add("short-write")
                    else:
                        add(f"{p} could not be written and lost its contents", "C18")
                elif not valid:
                    add(f"{p} has errors and was changed to {a[0][:200]!r}", "C18")
                elif a[0] == b[0]:
                    add(f"{p} was not formatted", *(["C19", "C20"] if dirs else ["C19"]), "C21")
                elif forms[p] == now[p] and now[p] not in ("good", "nl"):
                    add(f"{p} was changed without being asked to", "C20", "C21")
                else:
                    add(f"{p} now contains {a[0][:300]!r} and not {expect[:300]!r}", "C19")
            elif not valid and a != b:
                add(f"{p} has errors and was touched", "C18")
        # reports
        got, odd = reports(s["out"], s["err"])
        special = kinds & {"help", "version", "usage", "option"}
        if special:
            kind = special.pop()
            stream, other = (s["out"], s["err"]) if kind in ("help", "version") else (s["err"], s["out"])
            if kind == "version":
                ok = re.fullmatch(r"mofmt, \d+\.\d+\.\d+\S*\n", stream) is not None
            else:
                ok = "Usage: mofmt" in stream and "--check" in stream
            if kind == "option":
                ok = ok and told[0][1] in stream
            if not ok or other:
                add(f"unexpected answer {stream[:200]!r} / {other[:200]!r}", "C21")
            if s["code"] != want["code"]:
                add(f"exit code {s['code']} instead of {want['code']}", "C21")
        else:
            missing, extra = list(told), []
            for r in got:
                if r in missing:
                    missing.remove(r)
                else:
                    extra.append(r)
            for k, p in missing + extra:
                what = f"report {k!r} on {p!r} " + ("is missing" if (k, p) in missing else "is not expected")
                if k == "error":
                    add(what, "C18", "C19", *(["C20"] if dirs else []), "C21")
                elif k in ("passed", "failed"):
                    add(what, "C17", *(["C20"] if dirs else []), "C19")
                elif k == "syntax":
                    add(what, "C18", *(["C20"] if dirs else []), "C19")
                else:
                    add(what, "C19", *(["C20"] if dirs else []), "C21")
            if odd:
                add(f"unexpected output {odd[:3]}", "C21", *(["C17"] if want["mode"] == "check" else []))
            if s["code"] != want["code"]:
                add(f"exit code {s['code']} instead of {want['code']}", "C19",
                    *(["C17"] if want["mode"] == "check" else []),
                    *(["C18"] if kinds & {"syntax", "error"} else []),
                    *(["C20"] if dirs else []), "C21")
        now = forms
        if bad:
            break  # later commands start from another state
    return bad
