#!/usr/bin/env python3
"""mutate.py <worker> <workers> <seed> [file regex]: plant small random changes in a copy of /repo, one after the other, and
report which survive both the existing tests and the checks. Used to find blind spots of the checks; no check reads it.
Results are appended to /tmp/mut/results.jsonl."""
import json, os, random, re, subprocess, sys, time
w, workers, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
only = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
D = "/tmp/mut/w%d" % w
R, B = D + "/repo", D + "/vb"
V = os.environ.get("MUT_VERIF", "/verif")
BASE = "807ee14"
MAP = [("generate_", "C21"), ("extract|include_seed|remove_seed", "C20 C22"), ("draw_", "C23"), ("helper_functions", "C22"),   # file pattern -> checks, most likely first
    ("Newtonsolver", "C01 C02"), ("Timeevolver", "C02 C05"), ("Balancelaw", "C25 C05 C03"), ("Scheme", "C05 C03"),
    ("ConstraintJacobian", "C12 C11 C10"), ("ImplicitOptimizer", "C11 C10 C13"), ("IpoptWrapper/Wrapper|include/Wrapper|IpoptAdaptor|Optimizer", "C10 C13 C14"),
    ("Optimization_helpers|ControlStateCache", "C10 C11 C04"), ("InterpolatingVector", "C08 C09 C10"), ("Matrixhandler", "C12 C03"),
    ("unit_conversion", "C17 C07"), ("json_schema|Componentfactory", "C18 C07 C15"), ("Stochastic", "C19 C05"),
    ("Input_output", "C16 C14"), ("aux_json", "C15 C22 C07"), ("Grazer/grazer", "C26 C14"), ("Grazer/", "C14 C07 C15 C26"), ("Timedata", "C09 C07"),
    ("Netfactory", "C24 C04 C07 C18"), ("Networkproblem/Networkproblem|include/Networkproblem", "C04 C05 C11"), ("Gaspower", "C25 C05 C03 C04 C07"), ("Power/", "C05 C03 C04 C19 C07"),
    ("Gas/|Gasedge|Gasnode", "C05 C03 C04 C11 C07"), ("Componentclasses|ComponentJson", "C04 C08 C21 C11"), ("Network/", "C24 C05 C07"), ("Misc", "C25 C18 C09"), ("Mathfunctions", "C25 C05"),
]
ALL = ["C%02d" % i for i in range(1, 27)]
SWAP = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" * ", " / "),
        (" / ", " * "), (" += ", " -= "), (" -= ", " += "), (" += ", " = "), (" and ", " or "), (" or ", " and "), ("not ", ""), ("true", "false"), ("false", "true"),
        ("last_", "new_"), ("new_", "last_"), ("lower", "upper"), ("upper", "lower"), ("rows()", "cols()"), ("front()", "back()"), ("min(", "max("), ("max(", "min("),
        ("sin(", "cos("), ("cos(", "sin("), ("std::abs(", "("), ("first", "second"), ("second", "first"), ("start", "end"), ("end", "start"), ("_P", "_Q"), ("_Q", "_P"),
        (" + 1", ""), (" - 1", ""), (" = -", " = "), ("(-", "("), ("++", "--"), ("begin()", "end()"), ("lower_bound", "upper_bound"), ("upper_bound", "lower_bound"),
        ("break;", ""), ("continue;", ""), ("ceil(", "floor("), ("x_", "t_"), ("control", "state"), ("state", "control"), ("to", "from"), ("from", "to")]


def sh(c, t=900, **k):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def sites():
    out = []
    _, files = sh("git -C %s ls-files src helper_functions" % R)
    for f in files.split():
        if not re.search(r"\.(cpp|hpp)$", f) or "test" in f.lower() or (only and not only.search(f)):
            continue
        _, blame = sh("git -C %s blame -s -l %s" % (R, f))
        base = [l.startswith(BASE) or l.startswith("^" + BASE) for l in blame.splitlines()]
        lines = open(os.path.join(R, f)).read().split("\n")
        comment = False
        for i, l in enumerate(lines):
            c = l.strip()
            if "/*" in c:
                comment = True
            if comment:
                if "*/" in c:
                    comment = False
                continue
            if not c or c.startswith(("//", "#", "using", "namespace", "*", "template", "class", "struct", "public", "private")) or i >= len(base) or not base[i]:
                continue
            if re.match(r"^(const |static |virtual |inline )*[\w:]+(<[^;=]*>)?( const)? ?[&*]*[\w/ *]*[,)].*$", c) and not re.search(r"=|return|\(", c):
                continue  # parameters
            if re.match(r"^(virtual |explicit |static )?[\w:<>]+ [&*]?\w+\(", c) and not re.search(r"return|=|throw", c):
                continue  # declarations
            if re.search(r"Eigen::Ref<|Matrixhandler &|InterpolatingVector_Base const &", c) and c.endswith((",", ") const {", ") {", ");", ") const override;", ") const = 0;")) and "=" not in c.replace("= 0", ""):
                continue
            if '"' in c and ("<<" in c or c.startswith('"') or "gthrow" in c):
                continue
            code = l.split("//")[0]
            for a, b in SWAP:
                start = 0
                while True:
                    k = code.find(a, start)
                    if k < 0:
                        break
                    start = k + len(a)
                    if a[0].isalpha() and k and (code[k - 1].isalnum()):
                        continue
                    if a[-1].isalpha() and start < len(code) and (code[start].isalnum() or code[start] == "_") and a not in ("control", "state", "start", "end", "first", "second"):
                        continue
                    out.append((f, i, l, l[:k] + b + l[start:]))
            for m in re.finditer(r"(?<![\w.])(\d+\.?\d*)(?![\w.])", code):
                v = m.group(1)
                n = {"0": "1", "1": "0", "2": "1", "0.5": "1.5", "1.0": "2.0", "0.0": "1.0"}.get(v, v + "5" if "." in v else str(int(v) + 1))
                out.append((f, i, l, l[:m.start()] + n + l[m.end():]))
            if re.match(r"^\s*[\w\.\[\]\(\)>\-:]+(\(.*\)| [+\-*/]?= .*);$", code.rstrip()) and not re.match(r"^\s*(return|auto|double|int|bool|throw|delete|for|if|while|else)\b", code):
                out.append((f, i, l, "//" + l))
            m = re.match(r"^(\s*)(?:else )?if \((.*)\) \{$", code.rstrip())
            if m and "else" not in l:
                out.append((f, i, l, m.group(1) + "if (false and (" + m.group(2) + ")) {"))
                out.append((f, i, l, m.group(1) + "if (true or (" + m.group(2) + ")) {"))
    return out


def setup():
    if not os.path.isdir(R):
        os.makedirs(D, exist_ok=True)
        sh("git clone -q /repo " + R)
        s = open("/opt/vp/build.sh").read().replace("/repo", R).replace("ninja -C", "ninja -j4 -C")
        open(D + "/build.sh", "w").write(s)
    sh("git -C %s checkout -q -- . && git -C %s pull -q" % (R, R))
    rc, o = sh("bash %s/build.sh" % D, 3000)
    assert rc == 0, o[-2000:]


def tests():
    rc, o = sh("bash %s/build.sh" % D, 1500)
    if rc:
        return None
    sh("cd %s && timeout 120 python3 /opt/vp/run_gtests.py %s/_build > %s/lines.txt 2>/dev/null; python3 /opt/vp/results.py %s/o.json lines:%s/lines.txt" % (R, R, D, D, D))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        return want <= set(json.load(open(D + "/o.json"))["passed"])
    except Exception:
        return False


def check(c):
    rc, o = sh("VERIF_REPO=%s VERIF_BUILD=%s %s/bin/check %s quick" % (R, B, V, c), 900)
    return rc, o


def main():
    setup()
    assert tests(), "baseline"
    allsites = sites()
    rnd = random.Random(seed)
    rnd.shuffle(allsites)
    seen = {}
    todo = []
    for s in allsites:  # spread over files and lines
        if seen.get((s[0], s[1]), 0) >= 1 or seen.get(s[0], 0) >= 40:
            continue
        seen[(s[0], s[1])] = 1
        seen[s[0]] = seen.get(s[0], 0) + 1
        todo.append(s)
    print(len(allsites), len(todo), flush=True)
    for n, (f, i, old, new) in enumerate(todo):
        if n % workers != w:
            continue
        p = os.path.join(R, f)
        text = open(p).read()
        lines = text.split("\n")
        assert lines[i] == old
        lines[i] = new
        t0 = time.time()
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            open(p, "w").write("\n".join(lines))
            ok = tests()
            if ok is None:
                rec["result"] = "does not compile"
            elif not ok:
                rec["result"] = "tests"
            else:
                rel = next((c.split() for pat, c in MAP if re.search(pat, f)), [])
                rec["result"] = "SURVIVED"
                for c in rel:
                    rc, o = check(c)
                    if rc:
                        rec["result"] = c if rc == 1 and "VIOLATION" in o else "%s rc %d %s" % (c, rc, o[-300:])
                        break
        finally:
            open(p, "w").write(text)
        rec["seconds"] = round(time.time() - t0)
        open("/tmp/mut/results.jsonl", "a").write(json.dumps(rec) + "\n")


main()
