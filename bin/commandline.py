"""C26: every command line of a few words, on the real executable, against the commands it spells, run one after the other."""
import itertools, os, re, shutil, tempfile
import osmc
from osmc import Collector

STAMP = re.compile(r"\d{4}\.\d\d\.\d\d_\d\d:\d\d:\d\d\.\d{3}")
WORDS = ("run", "schema", "make-full-factory", "insert-key", "A", "B", "none", "--help", "-h", "--version", "-v", "--bogus", "")


def meaning(words):
    """the commands a line spells, or None: run DIR | schema (make-full-factory DIR | insert-key DIR)+, any number of them"""
    out, k = [], 0
    names = ("run", "schema", "make-full-factory", "insert-key")

    def directory():
        nonlocal k
        if k < len(words) and words[k] not in names and not words[k].startswith("-"):
            k += 1
            return words[k - 1]
        return None
    while k < len(words):
        w = words[k]
        k += 1
        if w == "run":
            d = directory()
            if d is None:
                return None
            out.append(("run", d))
        elif w == "schema":
            n = 0
            while k < len(words) and words[k] in ("make-full-factory", "insert-key"):
                w = words[k]
                k += 1
                d = directory()
                if d is None:
                    return None
                out.append(("schema", w, d))
                n += 1
            if not n:
                return None
        else:
            return None
    return out or None


def repeated(words):
    """commands that are named more than once, but given one directory: they may be accepted"""
    current, given, order = None, {}, []
    for w in words:
        if w in ("run", "make-full-factory", "insert-key"):
            if w != "run" and "schema" not in order:
                return None
            current = w
        elif w == "schema":
            current = None
        elif w.startswith("-") or current is None or current in given:
            return None
        else:
            given[current] = w
        if w in ("run", "schema", "make-full-factory", "insert-key") and w not in order:
            order.append(w)
    leaves = [w for w in order if w != "schema"]
    if not leaves or any(w not in given for w in leaves) or ("schema" in order and leaves == ["run"]):
        return None
    return [("run", given[w]) if w == "run" else ("schema", w, given[w]) for w in leaves]


def normal(snap):
    """time stamps say when, not what; which of several runs is which does not matter"""
    out = {}
    for p, c in sorted(snap.items()):
        out.setdefault(STAMP.sub("STAMP", p), []).append(c)
    return {p: sorted(cs, key=repr) for p, cs in out.items()}


def worlds():
    """both can be run; B also has schemas, and keys can be inserted"""
    good = {k[len("case/"):]: v for k, v in osmc.chain(steps=1).items()}
    bad = {k[len("case/"):]: v for k, v in osmc.chain(steps=2).items()}
    a = {"A/" + k: v for k, v in good.items()}
    a.update({"B/" + k: v for k, v in bad.items()})
    yield "both work", a
    b = dict(a)
    b["A/problem/problem_data.json"] = "{"  # reports a failure
    yield "the first is broken", b


def run(tier, scratch, find_exe, REPO, VERIF):
    thorough = tier == "thorough"
    exe = find_exe("grazer")
    lib = osmc.shim(scratch, VERIF)
    jobs = []
    cache = {}

    def execute(world, lines):
        """the files after these lines, one after the other, and how the last one ended (stops at the first failure)"""
        top = tempfile.mkdtemp(dir=scratch)
        try:
            osmc.put(top, world)
            osmc.put(top, {"bystander": "x"})
            rc, text = 0, ""
            for n, words in enumerate(lines):
                rc, text = osmc.execute([exe] + list(words), top, lib, clock=1700000000000 + 60000 * n)
                if rc != 0:
                    break
            return rc, text, normal(osmc.snapshot(top))
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def one(wname, world, words):
        col = Collector()
        sc = "%s: grazer %s" % (wname, " ".join(w or "''" for w in words))
        rc, text, files = execute(world, [words])
        col.runs += 1
        col.transitions += len(words)
        col.states.add(words)
        col.expect(isinstance(rc, int) and rc >= 0, sc, "signal", "ended with %s: %s" % (rc, text[-300:]))
        told = any(w in ("--help", "-h", "--version", "-v") for w in words)
        spelled = meaning(words)
        if (wname, "nothing") not in cache:
            cache[wname, "nothing"] = execute(world, [])[2]
        untouched = files == cache[wname, "nothing"]
        if told:
            col.expect(untouched, sc, "help", "files are changed though only information is asked for")
            col.count("information")
            if words in (("--help",), ("-h",), ("--version",), ("-v",), ("run", "--help"), ("schema", "--help"), ("schema", "insert-key", "-h")):
                col.expect(rc == 0 and text.strip(), sc, "help", "no information: %s %s" % (rc, text[-300:]))
            return col
        if spelled is None and repeated(words):
            # any order will do
            col.count("repetitions")
            if rc != 0 and untouched:
                return col
            wants = []
            for order in itertools.permutations(repeated(words)):
                key = (wname, order)
                if key not in cache:
                    cache[key] = execute(world, order)
                wants.append(cache[key])
            col.expect(any((rc == 0) == (w[0] == 0) and files == w[2] for w in wants), sc, "repeated", "not what the commands do: %s %s" % (rc, text[-300:]))
            return col
        if spelled is None:
            col.expect(rc != 0 and text.strip(), sc, "nonsense", "means nothing, but is not refused: %s %s" % (rc, text[-300:]))
            col.expect(untouched, sc, "nonsense files", "means nothing, but files are changed")
            col.count("refused")
            return col
        key = (wname, tuple(spelled))
        if key not in cache:
            cache[key] = execute(world, spelled)
        want_rc, _, want = cache[key]
        col.count("meaningful")
        named = [w for w in words if w in WORDS[:4]]
        if len(named) > len(set(named)) and rc != 0 and untouched:
            col.count("repetitions refused")  # it need not accept the same command twice
            return col
        col.expect((rc == 0) == (want_rc == 0), sc, "status", "exit status %s instead of %s: %s" % (rc, want_rc, text[-300:]))
        if files != want:
            diff = [p for p in sorted(set(files) | set(want)) if files.get(p) != want.get(p)]
            col.bad(sc, "effects", "not what the commands do one after the other, see %s" % ", ".join(diff[:6]))
        col.checks += 1
        return col

    every = list(worlds())
    for wname, world in every:
        lines = set()
        if wname == "both work":
            for n in range(0, 5 if thorough else 4):
                lines.update(itertools.product(WORDS, repeat=n))
        # whatever can be combined, in every order
        single = [("run", d) for d in "AB"] + [("schema", s, d) for s in ("make-full-factory", "insert-key") for d in "AB"]
        for n in range(1, 4 if thorough else 3):
            for combo in itertools.product(single, repeat=n):
                long = tuple(w for c in combo for w in c)
                lines.add(long)
                short, last = [], None
                for c in combo:
                    short += c[1:] if c[0] == "schema" and last == "schema" else c
                    last = c[0]
                lines.add(tuple(short))
                for k in range(len(short)):
                    lines.add(tuple(short[:k] + short[k + 1:]))  # a word is missing
                    lines.add(tuple(short[:k] + ["--help"] + short[k:]))
        for s1, s2, s3 in itertools.product(("make-full-factory", "insert-key"), repeat=3):
            for d in itertools.product("AB", repeat=3):
                lines.add(("schema", s1, d[0], s2, d[1], s3, d[2]))
        for words in sorted(lines):
            jobs.append(lambda wname=wname, world=world, words=words: one(wname, world, words))
    return osmc.parallel(jobs).result()
