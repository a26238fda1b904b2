"""C14 and C15: every file operation of grazer fails, is cut short or is the last one before a crash."""
import json, os, re, shutil, tempfile
import osmc
from osmc import Collector

CASES_RUN = {
    "simulate": dict(),
    "optimize": dict(optimize=True),
    "constrained": dict(optimize=True, upper=5.0, band=(58.0, 90.0), unit_pressure=58.0),
    "one_step": dict(steps=1),
}
OLD = {"case/output/older/states.json": '{"mine": 1}', "case/notes.txt": "mine", "other/problem/topology.json": "{}"}


def the_output(snap, before):
    """the directories of this run below case/output"""
    return sorted({p.split(os.sep)[2] for p in snap if p.startswith("case/output/") and p.count(os.sep) >= 2} -
                  {p.split(os.sep)[2] for p in before if p.startswith("case/output/") and p.count(os.sep) >= 2})


def below(snap, d):
    pre = "case/output/%s/" % d
    return {p[len(pre):]: c for p, c in snap.items() if p.startswith(pre)}


def results_complete(col, sc, files, out, steps, optimize):
    """the results of an undisturbed run: a copy of the problem, every component at every time"""
    prob = {p[len("case/problem/"):]: c for p, c in files.items() if p.startswith("case/problem/")}
    for p, c in prob.items():
        col.expect(out.get("problem/" + p) == json.dumps(c, indent=1).encode(), sc, "copy",
                   "%s is not copied unchanged into the output" % p)
    want = {("nodes", "Source", "source"), ("nodes", "Innode", "in1"), ("nodes", "Innode", "in2"), ("nodes", "ConstraintSink", "sink"),
            ("connections", "Pipe", "p1"), ("connections", "Pipe", "p2"), ("connections", "Compressorstation", "cs")}
    try:
        states = json.loads(out["states.json"])
    except (KeyError, ValueError) as e:
        col.bad(sc, "results", "states.json: %r" % e)
        return
    have = {(a, b, c["id"]): c for a, v in states.items() for b, w in v.items() for c in w}
    want -= {w for w in want if w[0] == "nodes"} if not any(k[0] == "nodes" for k in have) else set()
    for w in want:
        if w not in have:
            # nodes whose state is that of their edges may be left out, edges may not
            col.expect(w[0] == "nodes", sc, "results", "no results for %s" % (w,))
            continue
        times = [d["time"] for d in have[w]["data"]]
        col.expect([round(t, 6) for t in times] == [900.0 * i for i in range(steps + 1)], sc, "results", "times of %s: %s" % (w, times))
    if optimize:
        try:
            controls = json.loads(out["controls.json"])
            times = [d["time"] for d in controls["connections"]["Compressorstation"][0]["data"]]
            col.expect([round(t, 6) for t in times] == [900.0 * i for i in range(steps + 1)], sc, "results", "control times: %s" % times)
        except (KeyError, ValueError, IndexError) as e:
            col.bad(sc, "results", "controls.json: %r" % e)


def run_case(name, kw, exe, lib, scratch, second):
    """one undisturbed run as a reference, then one job per file operation and kind of failure"""
    files = dict(osmc.chain(**kw), **OLD)
    cmd = [exe, "run", "case"]
    top = tempfile.mkdtemp(dir=scratch)
    osmc.put(top, files)
    before = osmc.snapshot(top)
    rc, text = osmc.execute(cmd, top, lib, log=top + ".log")
    ev = osmc.events(top + ".log")
    after = osmc.snapshot(top)
    ref = Collector()
    ref.runs += 1
    dirs = the_output(after, before)
    if not ref.expect(rc == 0 and len(dirs) == 1, name, "undisturbed", "undisturbed run: exit %s, output %s, %s" % (rc, dirs, text[-600:])):
        return [lambda: ref]
    good = below(after, dirs[0])
    results_complete(ref, name, files, good, kw.get("steps", 3), kw.get("optimize", False))
    ref.count("file operations", len(ev))
    shutil.rmtree(top)
    jobs = [lambda: ref]

    def disturbed(k, op, path, kind, again):
        col = Collector()
        sc = "%s: operation %d (%s %s) %s%s" % (name, k, op, path, {"F": "fails", "D": "finds the disk full", "P": "is cut short", "K": "never happens (crash)",
                                                               "H": "happens half (crash)"}[kind], "" if again is None else ", then in the next run %d %s" % again)
        t = tempfile.mkdtemp(dir=scratch)
        try:
            osmc.put(t, files)
            rc, text = osmc.execute(cmd, t, lib, at=k, kind=kind)
            col.runs += 1
            col.transitions += len(ev)
            col.states.add((name, k, kind, again))
            judge(col, sc, rc, text, before, osmc.snapshot(t), kind in "KH")
            if len(col.samples) == 0 and k % 37 == 0:
                col.samples.append("%s -> exit %s" % (sc, rc))
            runs = [again] if again else []
            for a in runs + [None]:
                mid = osmc.snapshot(t)
                rc, text = osmc.execute(cmd, t, lib, at=None if a is None else a[0], kind=None if a is None else a[1])
                col.runs += 1
                if a is None:
                    col.expect(rc == 0, sc, "recovery", "the next undisturbed run ends with %s: %s" % (rc, text[-500:]), [k, kind])
                judge(col, sc + ", next run", rc, text, mid, osmc.snapshot(t), a is not None and a[1] in "KH")
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return col

    def judge(col, sc, rc, text, was, now, crash):
        for p, c in was.items():
            col.expect(now.get(p, "gone") == c, sc, "overwritten", "%s was changed or removed by the run" % p)
        new = the_output(now, was)
        for p in set(now) - set(was):
            col.expect(p == "case/output" or p.startswith("case/output/"), sc, "stray", "the run created %s outside its output" % p)
        col.expect(rc != "hang", sc, "hang", "grazer does not end")
        if crash:
            return
        col.expect(rc in (0, 1), sc, "signal", "grazer ends with %s: %s" % (rc, text[-400:]))
        col.count("exit 0" if rc == 0 else "exit 1")
        if rc == 0:
            if col.expect(len(new) == 1, sc, "success", "exit status 0, but output directories %s" % new):
                out = below(now, new[0])
                for p in good:
                    col.expect(out.get(p, "missing") == good[p], sc, "success",
                               "exit status 0, but %s of the results %s" % (p, "is missing" if p not in out else "differs from the undisturbed run's"))
        else:
            col.expect("rror" in text or "Fail" in text or "fail" in text, sc, "silent", "exit status %s without a message" % rc)

    for k, (op, path) in enumerate(ev):
        if "ipopt.opt" in path:
            continue
        for kind in osmc.kinds(op):
            jobs.append(lambda k=k, op=op, path=path, kind=kind: disturbed(k, op, path, kind, None))
            if second and kind in "K":
                for k2 in range(0, len(ev), 1):
                    for kind2 in second:
                        jobs.append(lambda k=k, op=op, path=path, kind=kind, k2=k2, kind2=kind2: disturbed(k, op, path, kind, (k2, kind2)))
    return jobs


# ------------------------------------------------------------------ outcomes of optimizations and simulations
def outcome_case(name, kw, exe, lib, scratch, expected):
    """exit status 0 exactly for runs that found what they were asked for"""
    def job():
        col = Collector()
        t = tempfile.mkdtemp(dir=scratch)
        try:
            files = dict(osmc.chain(**kw), **OLD)
            osmc.put(t, files)
            was = osmc.snapshot(t)
            rc, text = osmc.execute([exe, "run", "case"], t, lib)
            now = osmc.snapshot(t)
            col.runs += 1
            col.states.add(("outcome", name))
            col.expect(rc in (0, 1), name, "signal", "grazer ends with %s: %s" % (rc, text[-500:]))
            for p, c in was.items():
                col.expect(now.get(p, "gone") == c, name, "overwritten", "%s was changed or removed by the run" % p)
            if expected is not None:
                col.expect((rc == 0) == expected, name, "outcome", "exit status %s, expected %s: %s" % (rc, "success" if expected else "failure", text[-400:]))
            if rc == 0:
                out = below(now, (the_output(now, was) or ["?"])[0])
                results_complete(col, name, files, out, kw.get("steps", 3), kw.get("optimize", False))
                if kw.get("optimize"):
                    obeys(col, name, out, kw)
            col.count("outcome " + ("success" if rc == 0 else "failure"))
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return col
    return job


# ------------------------------------------------------------------ problems whose files lie elsewhere and are linked
def linked_case(name, links, exe, lib, scratch):
    """links: which of the problem's files are links, and how"""
    def job():
        col = Collector()
        t = tempfile.mkdtemp(dir=scratch)
        try:
            files = dict(osmc.chain(steps=1), **OLD)
            laid = {}
            for p, c in files.items():
                f = p[len("case/problem/"):]
                if p.startswith("case/problem/") and f in links:
                    laid["shared/deep/" + f] = c
                    target = {"relative": "../../shared/deep/" + f, "absolute": os.path.join(t, "shared/deep", f), "twice": "../../shared/via_" + f}[links[f]]
                    laid[p] = (target,)
                    if links[f] == "twice":
                        laid["shared/via_" + f] = ("deep/" + f,)
                else:
                    laid[p] = c
            osmc.put(t, laid)
            was = osmc.snapshot(t)
            rc, text = osmc.execute([exe, "run", "case"], t, lib)
            now = osmc.snapshot(t)
            col.runs += 1
            col.states.add(("linked", name))
            col.expect(rc == 0, name, "linked", "exit status %s: %s" % (rc, text[-400:]))
            for p, c in was.items():
                col.expect(now.get(p, "gone") == c, name, "overwritten", "%s was changed or removed by the run" % p)
            if rc == 0:
                new = (the_output(now, was) or ["?"])[0]
                # the record of what was computed does not change when the shared files do
                for d, _, fs in os.walk(os.path.join(t, "shared")):
                    for f in fs:
                        if not os.path.islink(os.path.join(d, f)):
                            with open(os.path.join(d, f), "w") as fh:
                                fh.write("changed later")
                out = below(osmc.snapshot(t), new)
                results_complete(col, name, files, out, 1, False)
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return col
    return job


IPOPT_OPTIONS = [["max_iter %d" % n] for n in range(0, 6)] + [
    ["tol 1e-30", "max_iter 40"], ["acceptable_iter 1", "acceptable_tol 1e10", "acceptable_dual_inf_tol 1e20", "acceptable_compl_inf_tol 1e10", "acceptable_constr_viol_tol 1e10"],
    ["diverging_iterates_tol 1e-3"], ["max_cpu_time 1e-9"], ["expect_infeasible_problem yes"], ["start_with_resto yes"], ["bound_push 1e-8"], ["nlp_scaling_method none"]]
FOUND = ("Optimal Solution Found", "Solved To Acceptable Level")


def ipopt_case(name, options, kw, exe, lib, scratch):
    """however Ipopt ends: exit status 0 exactly if its own log says that it has found an optimum"""
    def job():
        col = Collector()
        t = tempfile.mkdtemp(dir=scratch)
        try:
            osmc.put(t, dict(osmc.chain(**kw), **{"ipopt.opt": "\n".join(options + ["output_file ipopt.out", "file_print_level 3"]) + "\n"}))
            was = osmc.snapshot(t)
            rc, text = osmc.execute([exe, "run", "case"], t, lib)
            now = osmc.snapshot(t)
            col.runs += 1
            col.states.add(("ipopt", name))
            log = now.get("ipopt.out", b"").decode(errors="replace")
            ends = [l for l in log.splitlines() if l.startswith("EXIT:")]
            if not ends:
                col.count("no log of Ipopt")
                return col
            found = any(f in ends[-1] for f in FOUND)
            col.count("Ipopt: " + ends[-1][6:].strip(" ."))
            col.expect(rc == (0 if found else 1), name, "ipopt", "exit status %s, but Ipopt says: %s" % (rc, ends[-1]))
            dirs = the_output(now, was)
            last = below(now, dirs[0]) if dirs else {}
            if "controls.json" in last and "states.json" in last:
                # an optimization that found no optimum has to tell the truth about its last point, too
                printed(col, name, text, last, kw, grid_of(0, 900.0 * kw.get("steps", 3), 900), rc == 0)
                col.count("last point of a failed optimization" if rc else "optimum")
            if rc == 0:
                results_complete(col, name, osmc.chain(**kw), below(now, (the_output(now, was) or ["?"])[0]), kw.get("steps", 3), True)
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return col
    return job


def obeys(col, name, out, kw):
    """bounds of the controls everywhere, constraints at every n-th time and at the end"""
    lo, up = kw.get("lower", 0.0), kw.get("upper", 1.0)
    for d in json.loads(out["controls.json"])["connections"]["Compressorstation"][0]["data"]:
        col.expect(lo - 1e-6 <= d["values"][0] <= up + 1e-6, name, "bounds", "control %s outside [%s, %s]" % (d, lo, up))
    end = sink_pressures(out)[-1]
    if not kw.get("constrained", True):
        return
    band = kw.get("band", (0, 90))
    col.expect(band[0] - 1e-5 <= end <= band[1] + 1e-5, name, "constraint", "pressure %s at the end, allowed %s" % (end, band))


def printed(col, name, text, out, kw, states, found=True):
    """the figures grazer prints after an optimization are those of the results it reports"""
    def number(what, gap=" "):
        m = re.search(re.escape(what) + ":" + gap + r"(\S+)", text)
        if not col.expect(m is not None, name, "printed", "%s is not printed" % what):
            return None
        return float(m.group(1))

    def same(what, x, y, gap=" "):
        v = number(what, gap)
        if v is not None:
            col.expect(abs(v - y) <= 2e-5 * abs(y) + x, name, "printed", "%s is printed as %s, the results give %s" % (what, v, y))
    data = json.loads(out["controls.json"])["connections"]["Compressorstation"][0]["data"]

    def u(t):
        for a, b in zip(data, data[1:]):
            if t <= b["time"]:
                break
        w = min(1.0, max(0.0, (t - a["time"]) / (b["time"] - a["time"])))
        return a["values"][0] * (1 - w) + b["values"][0] * w
    n = len(states) - 1
    weight = [(states[min(i + 1, n)] - states[i - 1]) / 2 for i in range(1, n + 1)]
    cost = sum(w * u(states[i + 1]) ** 2 for i, w in enumerate(weight))
    same("Cost", 1e-6, cost)
    same("Penalty", 1e-6, 0.0)
    if found:  # otherwise it is what Ipopt knows, which may not have evaluated it at all
        same("Overall objective", 1e-6, cost)
    if kw.get("constrained", True):
        p, every = sink_pressures(out), kw.get("n", 1)
        at = list(range(1, n + 1, every))[:-(-n // every)]
        at[-1] = n
        band = kw.get("band", (0, 90))
        same("Maximum lower constraint violation", 1e-7, max(0.0, max(band[0] - p[i] for i in at)), "\n")
        same("Maximum upper constraint violation", 1e-7, max(0.0, max(p[i] - band[1] for i in at)), "\n")
        if max(band[0] - p[i] for i in at) > 1e-3:
            col.count("violated constraint printed")
    col.count("figures compared")


def grid_of(start, end, delta):
    n = -(-(end - start) // delta)
    return [start + (end - start) * i / n for i in range(int(n) + 1)]


def times_of(data):
    return [d["time"] for d in data]


def same_times(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1.0, abs(y)) for x, y in zip(a, b))


def settings_case(name, kw, exe, lib, scratch):
    """the times of states and controls are those of the settings, bounds hold at all of them,
    and simulating with the reported controls gives the reported states"""
    def job():
        col = Collector()
        t = tempfile.mkdtemp(dir=scratch)
        try:
            start, delta, settings = kw.get("start", 0), kw.get("delta", 900), kw.get("control_settings")
            end = start + 900.0 * kw.get("steps", 3)
            states = grid_of(start, end, delta)
            if settings is None:
                controls = states
            elif "desired_delta_t" in settings:
                controls = grid_of(start, end, settings["desired_delta_t"])
            elif settings["number_of_steps"] >= 2:
                m = settings["number_of_steps"] - 1
                controls = [start + (end - start) * i / m for i in range(m + 1)]
            else:
                controls = None

            said = {}

            def run(files, optimize):
                osmc.put(t, files)
                was = osmc.snapshot(t)
                rc, text = osmc.execute([exe, "run", "case"], t, lib)
                said[optimize] = text
                now = osmc.snapshot(t)
                col.runs += 1
                dirs = the_output(now, was)
                if not col.expect(rc == (1 if controls is None else 0), name, "settings", "exit status %s of the %s: %s" % (
                        rc, "optimization" if optimize else "simulation", text[-400:])) or rc:
                    return None
                return below(now, dirs[0])

            files = osmc.chain(**kw)
            col.states.add(("settings", name))
            out = run(files, kw.get("optimize", False))
            if out is None:
                return col
            results = json.loads(out["states.json"])
            for group in results.values():
                for kind in group.values():
                    for c in kind:
                        col.expect(same_times(times_of(c["data"]), states), name, "times", "the states of %s are at %s instead of %s" % (c["id"], times_of(c["data"]), states))
            if not kw.get("optimize"):
                return col
            got = json.loads(out["controls.json"])["connections"]["Compressorstation"][0]["data"]
            if not col.expect(same_times(times_of(got), controls), name, "times", "the controls are at %s instead of %s" % (times_of(got), controls)):
                return col
            for d in got:
                w = (d["time"] - start) / (end - start)
                low, high = kw["lower"] * (1 - w) + kw.get("lower_end", kw["lower"]) * w, kw["upper"] * (1 - w) + kw.get("upper_end", kw["upper"]) * w
                col.expect(low - 1e-6 <= d["values"][0] <= high + 1e-6, name, "bounds", "control %s outside [%s, %s]" % (d, low, high))
            printed(col, name, said[True], out, kw, states)
            p = sink_pressures(out)
            band = kw.get("band", (0, 90))
            if kw.get("constrained", True):
                n = kw.get("n", 1)
                must = [len(states) - 1] + (list(range(1, len(states))) if n == 1 else [])
                for i in must:
                    col.expect(band[0] - 1e-5 <= p[i] <= band[1] + 1e-5, name, "constraint", "pressure %s at time %s, allowed %s" % (p[i], states[i], band))
                if max(abs(p[i] - band[0]) for i in must) < 1e-3 or min(abs(p[i] - band[0]) for i in must) < 1e-3:
                    col.count("constraint active")
            # the reported controls, simulated
            again = dict(files)
            again["case/problem/problem_data.json"] = dict(files["case/problem/problem_data.json"])
            del again["case/problem/problem_data.json"]["optimize"]
            again["case/problem/control.json"] = json.loads(out["controls.json"])
            shutil.rmtree(os.path.join(t, "case"))
            sim = run(again, False)
            if sim is not None:
                col.expect(alike(json.loads(sim["states.json"]), results), name, "consistent", "simulating with the reported controls does not give the reported states")
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return col
    return job


def alike(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
    return a == b


def settings_jobs(tier, exe, lib, scratch):
    jobs = []
    quick = tier == "quick"
    SETTINGS = [None] + [{"desired_delta_t": d} for d in (450, 900, 1000, 1800, 1e6)] + [{"number_of_steps": m} for m in (-1, 0, 1, 2, 3, 4, 7)]
    for start in (0, -900, 1e5 + 0.3):
        for steps, delta in ((1, 900), (3, 900), (3, 1000), (2, 500)) if quick else ((1, 900), (1, 300), (3, 900), (3, 1000), (2, 500), (2, 1e9), (4, 700)):
            base = dict(start=start, steps=steps, delta=delta)
            for settings in SETTINGS:
                jobs.append(settings_case("simulate %s %s" % (base, settings), dict(base, control_settings=settings), exe, lib, scratch))
                for n in ((1, 2) if quick else (1, 2, 3, 5)):
                    for band in ((0, 90), (59.5, 90)) if quick else ((0, 90), (59.5, 90), (60.5, 62)):
                        for constrained in (True, False) if band[0] == 0 and n == 1 else (True,):
                            kw = dict(base, optimize=True, control_settings=settings, n=n, band=band, constrained=constrained, lower=0.0, upper=5.0, upper_end=4.0, lower_end=0.1)
                            jobs.append(settings_case("optimize %s" % {k: v for k, v in kw.items() if k != "optimize"}, kw, exe, lib, scratch))
    return jobs


def sink_pressures(out):
    pipe = [p for p in json.loads(out["states.json"])["connections"]["Pipe"] if p["id"] == "p2"][0]["data"]
    return [d["pressure"][-1]["value"] for d in pipe]


def natural_pressures(exe, lib, scratch, steps):
    """of the sink without any help of the compressor"""
    t = tempfile.mkdtemp(dir=scratch)
    osmc.put(t, osmc.chain(steps=steps))
    osmc.execute([exe, "run", "case"], t, lib)
    now = osmc.snapshot(t)
    shutil.rmtree(t)
    return sink_pressures(below(now, the_output(now, {})[0]))


def run14(tier, scratch, find_exe, REPO, VERIF):
    lib = osmc.shim(scratch, VERIF)
    exe = find_exe("grazer")
    jobs = []
    cases = CASES_RUN if tier == "thorough" else {k: CASES_RUN[k] for k in ("simulate", "optimize")}
    for name, kw in cases.items():
        second = ("K" if name == "one_step" else "") if tier == "thorough" else ""
        jobs += run_case(name, kw, exe, lib, scratch, second)
    for steps in (1, 2, 3, 4, 5, 6) if tier == "quick" else range(1, 13):
        # pressure falls with time: only at the end the compressor is needed
        p = natural_pressures(exe, lib, scratch, steps)
        for n in (1, 2, 3, 4, 5) if tier == "quick" else range(1, 14):
            jobs.append(outcome_case("end steps=%d n=%d" % (steps, n), dict(
                optimize=True, steps=steps, n=n, upper=5.0, band=((p[-1] + min(p[:-1] + [p[-1] + 0.2])) / 2, 90.0)), exe, lib, scratch, True))
    for band, ok in (((0, 90), True), ((70, 71), False), ((80, 60), False)):
        jobs.append(outcome_case("band %s" % (band,), dict(optimize=True, band=band), exe, lib, scratch, ok))
    for lo, up in ((0.0, 1.0), (0.5, 1.0)):
        jobs.append(outcome_case("no constraints, bounds %s %s" % (lo, up), dict(optimize=True, lower=lo, upper=up, constrained=False), exe, lib, scratch, True))
    for lo, up, ok in ((0.0, 1.0, True), (0.0, 0.0, True), (0.5, 1.0, True), (1.0, 0.0, False)):
        jobs.append(outcome_case("bounds %s %s" % (lo, up), dict(optimize=True, lower=lo, upper=up), exe, lib, scratch, ok))
    for band in ((0, 90), (61, 90), (70, 71)):
        for options in IPOPT_OPTIONS:
            jobs.append(ipopt_case("%s with Ipopt's %s" % (band, ", ".join(options)), options, dict(optimize=True, band=band, upper=5.0), exe, lib, scratch))
    names = [p[len("case/problem/"):] for p in osmc.chain(steps=1)]
    for k in range(1, 1 << len(names)):
        for how in ("relative", "absolute", "twice") if tier == "thorough" or bin(k).count("1") in (1, len(names)) else ("relative",):
            links = {f: how for i, f in enumerate(names) if k >> i & 1}
            jobs.append(linked_case("problem with %s as %s links" % (sorted(links), how), links, exe, lib, scratch))
    jobs += settings_jobs(tier, exe, lib, scratch)
    for newton in (0, 1, 50):
        for opt in (False, True):
            jobs.append(outcome_case("newton %d %s" % (newton, opt), dict(optimize=opt, newton=newton), exe, lib, scratch, newton == 50))
    return osmc.parallel(jobs).result()


# ------------------------------------------------------------------ C15
SCHEMAS = ["boundary", "control", "initial", "topology", "problem_data"]


def user_cases():
    data = {k.split("/")[-1]: v for k, v in osmc.chain().items()}
    schemas = {"case/schemas/%s_schema.json" % s: {"type": "object"} for s in SCHEMAS}
    full = {"case/problem/" + k: json.dumps(v, indent=2) for k, v in data.items()}
    mine = {"case/problem/notes.txt": "mine", "case/problem/tmp_backup": "my old backup", "case/problem/topology.json.bak": "{}",
            "case/readme": "mine", "case/problem/topology.json.tmp": "mine", "case/problem/topology.json.0.tmp": "mine"}
    keyed = {p: json.dumps(dict({"$schema": "mine.json"}, **json.loads(c))) for p, c in full.items()}
    return {
        "insert-key": (["schema", "insert-key", "case"], dict(full, **schemas)),
        "insert-key, other files": (["schema", "insert-key", "case"], dict(full, **schemas, **mine)),
        "insert-key, keys present": (["schema", "insert-key", "case"], dict(keyed, **schemas)),
        "insert-key, nothing there": (["schema", "insert-key", "case"], dict(schemas, **{"case/readme": "mine"})),
        "insert-key, some schemas": (["schema", "insert-key", "case"], dict(full, **{k: v for k, v in schemas.items() if "to" not in k})),
        "make schemas": (["schema", "make-full-factory", "case"], dict(full, **mine)),
        "make schemas again": (["schema", "make-full-factory", "case"], dict(full, **schemas)),
        "make schemas, empty": (["schema", "make-full-factory", "case"], {"case/readme": "mine"}),
        "make schemas, foreign file": (["schema", "make-full-factory", "case"], dict(full, **{"case/schemas/thesis.txt": "mine"})),
        "make schemas, foreign directory": (["schema", "make-full-factory", "case"], dict(full, **{"case/schemas/d/x": "mine"})),
    }


def generated(cmd, p):
    """may this file be written by the command at all?"""
    if cmd[1] == "insert-key":
        return p in ["case/problem/%s.json" % s for s in SCHEMAS]
    return p in ["case/schemas/%s_schema.json" % s for s in SCHEMAS]


def schema_case(name, cmd, files, exe, lib, scratch, second):
    top = tempfile.mkdtemp(dir=scratch)
    osmc.put(top, files)
    before = osmc.snapshot(top)
    rc, text = osmc.execute([exe] + cmd, top, lib, log=top + ".log")
    ev = osmc.events(top + ".log")
    good = osmc.snapshot(top)
    ref = Collector()
    ref.runs += 1
    ref.count("file operations", len(ev))
    foreign = "foreign" in name
    ref.expect((rc == 0) != foreign, name, "undisturbed", "undisturbed command: exit %s, %s" % (rc, text[-600:]))
    for p in set(before) | set(good):
        if before.get(p, "") == good.get(p, ""):
            continue
        if p in ("case/problem", "case/schemas") and p not in before:
            continue
        ref.expect(not foreign and p in good and generated(cmd, p), name, "foreign", "%s was %s" % (p, "removed" if p not in good else "written"))
    if rc == 0 and cmd[1] == "insert-key":
        for s in SCHEMAS:
            p = "case/problem/%s.json" % s
            if "case/schemas/%s_schema.json" % s not in before:
                ref.expect(good.get(p) == before.get(p), name, "insert", "%s was changed without a schema" % p)
                continue
            old = json.loads(before[p]) if p in before else {}
            new = json.loads(good.get(p, b"null") or b"null")
            if ref.expect(isinstance(new, dict), name, "insert", "%s: %s" % (p, new)):
                key = new.pop("$schema", None)
                ref.expect(key in ("../schemas/%s_schema.json" % s, old.get("$schema")), name, "insert", "%s: $schema is %s" % (p, key))
                old.pop("$schema", None)
                ref.expect(new == old and list(new) == list(old), name, "insert", "the content of %s changed" % p)
        # once more changes nothing
        rc2, _ = osmc.execute([exe] + cmd, top, lib)
        ref.expect(rc2 == 0 and osmc.snapshot(top) == good, name, "again", "repeating the command changes the files or fails (%s)" % rc2)
    if rc == 0 and cmd[1] == "make-full-factory":
        for s in SCHEMAS:
            p = "case/schemas/%s_schema.json" % s
            try:
                ref.expect(isinstance(json.loads(good[p]), dict), name, "schema", p + " is no object")
            except (KeyError, ValueError) as e:
                ref.bad(name, "schema", "%s: %r" % (p, e))
        rc2, _ = osmc.execute([exe] + cmd, top, lib)
        ref.expect(rc2 == 0 and osmc.snapshot(top) == good, name, "again", "repeating the command changes the files or fails (%s)" % rc2)
    shutil.rmtree(top)
    jobs = [lambda: ref]

    def disturbed(k, op, path, kind, again):
        col = Collector()
        sc = "%s: operation %d (%s %s) %s%s" % (name, k, op, path, {"F": "fails", "D": "finds the disk full", "P": "is cut short", "K": "never happens (crash)",
                                                               "H": "happens half (crash)"}[kind], "" if again is None else ", then in the next one %d %s" % again)
        t = tempfile.mkdtemp(dir=scratch)
        try:
            osmc.put(t, files)
            col.transitions += len(ev)
            col.states.add((name, k, kind, again))
            crash = kind in "KH"
            for step, a in enumerate([(k, kind)] + ([again] if again else []) + [None]):
                rc, text = osmc.execute([exe] + cmd, t, lib, at=a and a[0], kind=a and a[1])
                col.runs += 1
                now = osmc.snapshot(t)
                crashed = a is not None and a[1] in "KH"
                where = sc + (", command %d" % (step + 1) if step else "")
                col.expect(rc != "hang", where, "hang", "grazer does not end")
                if not crashed:
                    col.expect(rc in (0, 1), where, "signal", "grazer ends with %s: %s" % (rc, text[-400:]))
                    if rc == 1:
                        col.expect("rror" in text, where, "silent", "exit status 1 without a message")
                    col.count("exit %s" % rc)
                for p, c in before.items():
                    if not generated(cmd, p):
                        col.expect(now.get(p, "gone") == c, where, "foreign", "%s was changed or removed" % p)
                    elif cmd[1] == "insert-key":
                        col.expect(now.get(p, "gone") in (c, good[p]), where, "lost",
                                   "%s is neither the user's file nor the one with the key: %.120r" % (p, now.get(p, "gone")))
                for p in set(now) - set(before):
                    if p in good:
                        continue
                    # leftovers of a crash may stay, those of a failed command may not
                    col.expect(crash or crashed or op == "unlink" or "/" not in p, where, "leftover", "%s was left behind" % p)
                if rc == 0 and not crashed:
                    for p in good:
                        col.expect(now.get(p, "gone") == good[p], where, "success", "exit status 0, but %s is not what it should be" % p)
                if a is None:
                    col.expect((rc == 0) != foreign, where, "recovery", "the next undisturbed command ends with %s: %s" % (rc, text[-400:]))
            if k % 17 == 0:
                col.samples.append(sc)
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return col

    for k, (op, path) in enumerate(ev):
        for kind in osmc.kinds(op):
            jobs.append(lambda k=k, op=op, path=path, kind=kind: disturbed(k, op, path, kind, None))
            if second and kind in "KH":
                for k2, (op2, _) in enumerate(ev):
                    for kind2 in osmc.kinds(op2):
                        jobs.append(lambda k=k, op=op, path=path, kind=kind, k2=k2, kind2=kind2: disturbed(k, op, path, kind, (k2, kind2)))
    return jobs


def run15(tier, scratch, find_exe, REPO, VERIF):
    lib = osmc.shim(scratch, VERIF)
    exe = find_exe("grazer")
    jobs = []
    for name, (cmd, files) in user_cases().items():
        jobs += schema_case(name, cmd, files, exe, lib, scratch, tier == "thorough" and name in ("insert-key", "make schemas again"))
    return osmc.parallel(jobs).result()
