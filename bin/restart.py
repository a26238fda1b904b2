"""C20: a simulation continued from an extracted state; C21: the tools that turn results into tables. Real executables."""
import copy, csv, itertools, json, math, os, shutil, subprocess, tempfile
import malformed, osmc
from osmc import Collector

POWER = ("PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant")
GAS = ("Pipe", "Shortpipe", "Gaspowerconnection", "Compressorstation", "Controlvalve")


def tool(cmd, cwd):
    try:
        r = subprocess.run(cmd, cwd=cwd, env={"PATH": os.environ["PATH"], "LC_ALL": "C", "TZ": "UTC"}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60, stdin=subprocess.DEVNULL, preexec_fn=malformed.limits)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode("utf8", "replace")


def components(states):
    for cls in ("nodes", "connections"):
        for typ, lst in states.get(cls, {}).items():
            for c in lst:
                yield cls, typ, c


# ------------------------------------------------------------------ problems
def clock(start, dt, steps):
    return start, start + dt * steps, dt


def gas_line(edges, at_start, back, times, delta_x, bent, simplified):
    """pressure is given at one end, flow taken at the other; back: that edge is written against the flow"""
    start, end, dt = times
    mid = start + 0.4 * (end - start)

    def ts(*v):
        t = [start, mid, end] if bent else [start, end]
        v = v if bent else (v[0], v[-1])
        return [{"time": a, "values": [b]} for a, b in zip(t, v)]

    def straight(v, w):  # controls are taken at points of a grid that begins where the simulation begins
        return [{"time": start, "values": [v]}, {"time": end, "values": [w]}]
    # identifiers in an order that is neither the one of the line nor the one of the input
    name = ["n%d" % ((7 * i + 3) % 11) for i in range(len(edges) + 1)]
    top = {"nodes": {}, "connections": {}}
    bnd = {"nodes": {}}
    con = {"connections": {}}
    ini = {"connections": {}}
    first, last = ("Pressureboundarynode", "Sink") if at_start else ("Source", "Pressureboundarynode")
    for i, n in enumerate(name):
        typ = first if i == 0 else last if i == len(edges) else "Innode"
        top["nodes"].setdefault(typ, []).insert(0, {"id": n})
        if typ == "Pressureboundarynode":
            bnd["nodes"].setdefault(typ, []).append({"id": n, "data": ts(60.0, 61.5, 60.5)})
        elif typ != "Innode":
            bnd["nodes"].setdefault(typ, []).append({"id": n, "data": ts(40.0, 75.0, 55.0)})
    for i, e in enumerate(edges):
        eid = "e%d" % ((5 * i + 2) % 7)
        a, b = name[i], name[i + 1]
        sign = 1.0
        if back == i:
            a, b, sign = b, a, -1.0
        c = {"id": eid, "from": a, "to": b}
        if e == "Pipe":
            c.update(length={"unit": "km", "value": 12.0007}, diameter={"unit": "mm", "value": 700}, roughness={"unit": "m", "value": 1e-5},
                     balancelaw="Isothermaleulerequation", scheme="Implicitboxscheme", desired_delta_x=delta_x)
        x = 12000.7 if e == "Pipe" else 1
        top["connections"].setdefault(e, []).insert(0, c)
        ini["connections"].setdefault(e, []).append({"id": eid, "data": [{"x": 0, "values": [60.0, 40.0 * sign]}, {"x": x, "values": [59.0, 42.0 * sign]}]})
        if e in ("Compressorstation", "Controlvalve"):
            con["connections"].setdefault(e, []).append({"id": eid, "data": straight(0.5, 1.0)})
    pd = {"simulation_settings": {"use_simplified_newton": simplified, "maximal_number_of_newton_iterations": 60, "tolerance": 1e-8, "retries": 0,
                                  "start_time": start, "end_time": end, "desired_delta_t": dt},
          "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json"}, "control_settings": {"number_of_steps": 6}}
    return {"problem_data.json": pd, "topology.json": top, "boundary.json": bnd, "initial.json": ini, "control.json": con}


def power_star(types, times):
    """a slack node and others around it"""
    start, end, dt = times
    top = {"nodes": {}, "connections": {"Transmissionline": []}}
    bnd, ini = {"nodes": {}}, {"nodes": {}}
    values = {"Vphinode": ([1.0, 0.0], [1.02, 0.0]), "PQnode": ([-0.3, -0.05], [-0.5, 0.02]), "PVnode": ([0.2, 1.0], [0.1, 0.98]),
              "StochasticPQnode": ([-0.2, 0.0], [-0.3, 0.05]), "ExternalPowerplant": ([1.0, 0.0], [1.0, 0.02])}
    ids = ["v%d" % ((5 * i + 4) % 9) for i in range(len(types) + 1)]
    G, B = [0.4 * len(types)] + [0.4] * len(types), [-8.0 * len(types)] + [-8.0] * len(types)
    for i, typ in enumerate(("Vphinode",) + tuple(types)):
        c = {"id": ids[i], "G": G[i], "B": B[i]}
        if typ == "StochasticPQnode":
            c.update(sigma_P=0.02, theta_P=0.3, sigma_Q=0.01, theta_Q=0.3, number_of_stochastic_steps=20, stability_parameter=1.0, cut_off_factor=0.2)
        top["nodes"].setdefault(typ, []).insert(0, c)
        v, w = values[typ]
        bnd["nodes"].setdefault(typ, []).append({"id": ids[i], "data": [{"time": start, "values": v}, {"time": end, "values": w}]})
        ini["nodes"].setdefault(typ, []).append({"id": ids[i], "data": [{"x": 0, "values": [1.0, 0.0]}]})
        if i:
            top["connections"]["Transmissionline"].append({"id": "t%d" % (9 - i), "from": ids[0], "to": ids[i], "G": -0.4, "B": 8})
    pd = {"simulation_settings": {"use_simplified_newton": False, "maximal_number_of_newton_iterations": 60, "tolerance": 1e-10, "retries": 0,
                                  "start_time": start, "end_time": end, "desired_delta_t": dt},
          "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json"}}
    return {"problem_data.json": pd, "topology.json": top, "boundary.json": bnd, "initial.json": ini, "control.json": {}}


def coupled(times, stochastic):
    start, end, dt = times
    f = copy.deepcopy(malformed.coupled())
    st = f["problem_data.json"]["simulation_settings"]
    st.update(start_time=start, end_time=end, desired_delta_t=dt, tolerance=1e-9, maximal_number_of_newton_iterations=60)
    for name in ("boundary.json", "control.json"):
        for _, _, c in components(f[name]):
            for d in c["data"]:
                d["time"] = start if d["time"] == 0 else end
    if not stochastic:
        for t in f["topology.json"]["nodes"]["StochasticPQnode"]:
            t["sigma_P"] = t["sigma_Q"] = 0.0
    return f


# ------------------------------------------------------------------ C20
def simulate(exe, top, name, files):
    osmc.put(top, {name + "/problem/" + k: v for k, v in files.items()})
    rc, text = tool([exe, "run", name], top)
    out = os.path.join(top, name, "output")
    found = [os.path.join(out, d, "states.json") for d in (os.listdir(out) if os.path.isdir(out) else [])]
    found = [p for p in found if os.path.exists(p)]
    return rc, text, found[0] if len(found) == 1 else None


def load(p):
    with open(p) as fh:
        return json.load(fh)


def initial_of(typ, step):
    """the documented content of an initial value file for a component in a state"""
    if typ in POWER:
        return [{"x": 0.0, "values": [step["V"], step["phi"]]}]
    return [{"x": f["x"], "values": [p["value"], f["value"]]} for p, f in zip(step["pressure"], step["flow"])]


def index(states):
    return {c["id"]: (typ, c["data"]) for _, typ, c in components(states)}


def near(a, b, tol):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def flat(typ, step):
    if typ in POWER:
        return [("V", step["V"]), ("phi", step["phi"]), ("P", step["P"]), ("Q", step["Q"])]
    return [("%s at %s" % (k, e["x"]), e["value"]) for k in ("pressure", "flow") for e in step[k]]


def restart_case(name, files, find_exe, scratch, tier):
    grazer, extract = find_exe("grazer"), find_exe("extract_new_initial_condition")

    def job():
        col = Collector()
        top = tempfile.mkdtemp(dir=scratch)
        try:
            rc, text, out = simulate(grazer, top, "whole", files)
            col.runs += 1
            if not col.expect(rc == 0 and out, name, "whole", "the simulation does not work: %s" % text[-600:]):
                return col
            states = load(out)
            whole = index(states)
            data = next(iter(whole.values()))[1]
            t = [d["time"] for d in data]
            steps = len(t) - 1
            asked = [("before the first", t[0] - 1.0, 0), ("after the last", t[-1] + 1.0, steps)]
            for k in range(steps + 1):
                asked.append(("step %d" % k, t[k], k))
                if k:
                    asked.append(("between steps %d and %d" % (k - 1, k), 0.5 * (t[k - 1] + t[k]), k))
            for what, time, k in asked:
                sc = "%s, %s" % (name, what)
                col.states.add(sc)
                col.count("extractions")
                start = os.path.join(top, "start.json")
                rc, text = tool([extract, out, start, repr(time)], top)
                col.transitions += 1
                if not col.expect(rc == 0 and os.path.exists(start), sc, "extract", "extraction fails: %s" % text[-400:]):
                    continue
                got = load(start)
                mine = {c["id"]: (typ, c["data"]) for _, typ, c in components(got)}
                want = {i: (typ, initial_of(typ, d[k])) for i, (typ, d) in whole.items()}
                for i in sorted(set(want) | set(mine)):
                    col.expect(mine.get(i) == want.get(i), sc, "state",
                               "%s starts with %s, its state then was %s" % (i, json.dumps(mine.get(i))[:300], json.dumps(want.get(i))[:300]))
                os.unlink(start)
                if not what.startswith("step") or k == steps:
                    continue
                again = copy.deepcopy(files)
                again["initial.json"] = got
                again["problem_data.json"]["simulation_settings"]["start_time"] = t[k]
                again["problem_data.json"]["simulation_settings"]["desired_delta_t"] = (t[-1] - t[k]) / (steps - k)
                rc, text, rest = simulate(grazer, top, "rest%d" % k, again)
                col.runs += 1
                col.transitions += steps - k
                if not col.expect(rc == 0 and rest, sc, "continue", "the simulation cannot be continued: %s" % text[-600:]):
                    continue
                other = index(load(rest))
                if not col.expect(set(other) == set(whole), sc, "components", "the continued simulation has other components"):
                    continue
                for i, (typ, d) in other.items():
                    if not col.expect(len(d) == steps - k + 1, sc, "steps", "%s has %d states" % (i, len(d))):
                        continue
                    for n, step in enumerate(d):
                        ref = flat(typ, whole[i][1][k + n])
                        for (q, v), (_, w) in zip(flat(typ, step), ref):
                            if n == 0 and q in ("P", "Q"):
                                continue  # power is not part of initial values
                            col.expect(near(v, w, 2e-6), sc, "value", "%s of %s at time %s: %r when continued, %r otherwise" % (q, i, step["time"], v, w))
                        col.expect(len(flat(typ, step)) == len(ref), sc, "points", "%s has other points" % i)
            if not col.samples:
                col.samples.append(name)
        finally:
            shutil.rmtree(top, ignore_errors=True)
        return col
    return job


def seed_case(name, files, seeds, find_exe, scratch):
    """results with drawn or given seeds, reproduced after the seeds have been put into the input, and the way back"""
    grazer, include, remove = find_exe("grazer"), find_exe("include_seed_in_boundaryvalues"), find_exe("remove_seed_from_boundaryvalues")

    def job():
        col = Collector()
        top = tempfile.mkdtemp(dir=scratch)
        try:
            f = copy.deepcopy(files)
            plain = copy.deepcopy(f["boundary.json"])
            for c, s in zip(f["boundary.json"]["nodes"]["StochasticPQnode"], seeds):
                c.pop("seed", None)
                if s is not None:
                    c["seed"] = s
            for c in plain["nodes"]["StochasticPQnode"]:
                c.pop("seed", None)
            rc, text, out = simulate(grazer, top, "whole", f)
            col.runs += 1
            if not col.expect(rc == 0 and out, name, "whole", "the simulation does not work: %s" % text[-600:]):
                return col
            states = load(out)
            used = {c["id"]: c.get("seed") for c in states["nodes"]["StochasticPQnode"]}
            for c in f["boundary.json"]["nodes"]["StochasticPQnode"]:
                if "seed" in c:
                    col.expect(used.get(c["id"]) == c["seed"], name, "seed", "%s was given %s, reported is %s" % (c["id"], c["seed"], used.get(c["id"])))
                else:
                    col.expect(used.get(c["id"]), name, "no seed", "no seed reported for %s" % c["id"])
            boundary = os.path.join(top, "whole", "problem", "boundary.json")
            rc, text = tool([include, "whole", out], top)
            col.transitions += 1
            now = load(boundary)
            want = copy.deepcopy(f["boundary.json"])
            for c in want["nodes"]["StochasticPQnode"]:
                c["seed"] = used[c["id"]]
            col.expect(rc == 0 and now == want, name, "include", "wrong boundary values after including the seeds (%s): %s" % (rc, text[-300:]))
            g = copy.deepcopy(f)
            g["boundary.json"] = now
            rc, text, second = simulate(grazer, top, "again", g)
            col.runs += 1
            col.states.add(name)
            if col.expect(rc == 0 and second, name, "again", "the simulation does not work with the seeds: %s" % text[-600:]):
                col.expect(load(second) == states, name, "reproduce", "other results with the same seeds")
            rc, text = tool([remove, "whole"], top)
            col.transitions += 1
            col.expect(rc == 0 and load(boundary) == plain, name, "remove", "wrong boundary values after removing the seeds (%s): %s" % (rc, text[-300:]))
        finally:
            shutil.rmtree(top, ignore_errors=True)
        return col
    return job


def run20(tier, scratch, find_exe, REPO, VERIF):
    thorough = tier == "thorough"
    jobs = []
    kinds = ("Pipe", "Shortpipe", "Controlvalve", "Compressorstation")
    grids = [clock(0.0, 900.0, 3), clock(-1800.3, 700.1, 4)] if thorough else [clock(-1800.3, 700.1, 3)]
    for n in range(1, 4 if not thorough else 5):
        for edges in itertools.product(kinds, repeat=n):
            for at_start in (True, False):
                for back in range(-1, n):
                    if n == 3 and not thorough and (back not in (-1, 1) or edges.count("Pipe") == 0):
                        continue
                    if n == 4 and (back not in (-1, 2) or "Pipe" not in edges):
                        continue
                    for times in grids:
                        modes = itertools.product((6000.0, 2500.0), (True, False), (True, False)) if thorough and n < 3 else \
                            [(6000.0, True, (len(jobs) % 2) == 0)]
                        for dx, bent, simple in modes:
                            jobs.append(restart_case("line %s, pressure at the %s, %s backwards, from %s, points every %s, %s, %s" % (
                                "-".join(edges), "start" if at_start else "end", "none" if back < 0 else "edge %d" % back, times[0], dx,
                                "bent" if bent else "straight", "simplified" if simple else "full"),
                                gas_line(edges, at_start, back, times, dx, bent, simple), find_exe, scratch, tier))
    for n in range(0, 3 if not thorough else 4):
        for types in itertools.product(("PQnode", "PVnode", "Vphinode"), repeat=n):
            if not n:
                continue
            for times in grids:
                jobs.append(restart_case("star %s from %s" % ("-".join(types), times[0]), power_star(types, times), find_exe, scratch, tier))
    for times in [clock(0.0, 600.0, 3), clock(-1800.3, 700.1, 5)]:
        jobs.append(restart_case("coupled from %s" % times[0], coupled(times, False), find_exe, scratch, tier))
    given = [[1, 2, 3, 4, 5, 6, 7, 8], [8, 7, 6, 5, 4, 3, 2, 4294967295], None]
    for times in grids:
        for n in (1, 2, 3):
            for seeds in itertools.product(range(3), repeat=n):
                # the slack node and other nodes are there so that the order of the components matters
                types = ("StochasticPQnode",) * n + ("PQnode",)
                jobs.append(seed_case("seeds %s from %s" % (seeds, times[0]), power_star(types, times), [given[s] for s in seeds], find_exe, scratch))
    return osmc.parallel(jobs).result()


# ------------------------------------------------------------------ C21
def table(p):
    with open(p) as fh:
        return [[c.strip() for c in row] for row in csv.reader(fh)]


def numbers(row):
    return [float(x) for x in row]


def check_table(col, sc, got, head, rows):
    """the same numbers: what is written must read back as the value in the results"""
    if not col.expect(got and got[0] == head, sc, "head", "columns are %s, expected %s" % (got[:1], head)):
        return
    try:
        body = [numbers(r) for r in got[1:]]
    except ValueError:
        body = None
    col.expect(body == rows, sc, "table", "the table says %s, the results are %s" % (json.dumps(got[1:])[:300], json.dumps(rows)[:300]))


def csv_case(name, states, controls, ids, find_exe, scratch):
    tools = (("generate_printing_csv", "states.json", states), ("generate_control_printing_csv", "controls.json", controls))

    def job():
        col = Collector()
        for prog, fname, content in tools:
            if content is None:
                continue
            known = {c["id"]: (typ, c["data"]) for _, typ, c in components(content)}
            for cid in list(known) + ids:
                sc = "%s, %s of %s" % (name, prog, cid)
                top = tempfile.mkdtemp(dir=scratch)
                try:
                    work = os.path.join(top, "a", "work")
                    osmc.put(work, {fname: content, "bystander.csv": "keep\n"})
                    before = osmc.snapshot(top)
                    rc, text = tool([find_exe(prog), fname, cid], work)
                    col.runs += 1
                    col.transitions += 1
                    col.states.add(sc)
                    if not col.samples:
                        col.samples.append(sc)
                    now = osmc.snapshot(top)
                    new = {p for p in now if now[p] != before.get(p)}
                    col.expect(rc in (0, 1), sc, "end", "ended with %s: %s" % (rc, text[-300:]))
                    col.expect(all(now.get(p) == before[p] for p in before), sc, "others", "changed or removed other files")
                    outside = [p for p in new if not p.startswith("a/work/")]
                    col.expect(not outside, sc, "outside", "wrote %s" % outside)
                    inside = sorted(p[len("a/work/"):] for p in new)
                    if cid not in known:
                        col.expect(rc == 1 and not new, sc, "unknown", "an unknown component: %s, %s" % (rc, inside))
                        continue
                    typ, data = known[cid]
                    if "/" in cid:
                        # either refused, or it leads back here
                        col.expect(rc == 1 or os.path.realpath(os.path.join(work, cid)).startswith(work + os.sep), sc, "elsewhere",
                                   "a file elsewhere was asked for: %s, %s" % (rc, inside))
                        continue
                    if prog == "generate_control_printing_csv":
                        if typ not in ("Compressorstation", "Controlvalve"):
                            col.expect(rc == 1 and not new, sc, "no control", "not a control component: %s, %s" % (rc, inside))
                            continue
                        col.expect(rc == 0 and inside == [cid + ".csv"], sc, "files", "ended with %s, wrote %s" % (rc, inside))
                        if inside == [cid + ".csv"]:
                            check_table(col, sc, table(os.path.join(work, inside[0])), ["time"] + ["control_%d" % i for i in range(len(data[0]["values"]))],
                                        [[d["time"]] + d["values"] for d in data])
                    elif typ in POWER:
                        col.expect(rc == 0 and inside == [cid + ".csv"], sc, "files", "ended with %s, wrote %s" % (rc, inside))
                        if inside == [cid + ".csv"]:
                            got = table(os.path.join(work, inside[0]))
                            cols = got[0][1:] if got else []
                            if col.expect(sorted(cols) == sorted(k for k in data[0] if k != "time"), sc, "head", "columns are %s" % cols):
                                check_table(col, sc, got, ["time"] + cols, [[d["time"]] + [d[k] for k in cols] for d in data])
                    else:
                        quantities = sorted(k for k in data[0] if k != "time")
                        want = sorted("%s_%s.csv" % (cid, k) for k in quantities)
                        col.expect(rc == 0 and inside == want, sc, "files", "ended with %s, wrote %s" % (rc, inside))
                        for k in quantities:
                            p = os.path.join(work, "%s_%s.csv" % (cid, k))
                            if os.path.exists(p):
                                got = table(p)
                                if got:
                                    try:
                                        got[0] = got[0][:1] + [repr(float(x)) for x in got[0][1:]]
                                    except ValueError:
                                        pass
                                check_table(col, sc, got, ["t-x"] + [repr(float(e["x"])) for e in data[0][k]],
                                            [[d["time"]] + [e["value"] for e in d[k]] for d in data])
                finally:
                    shutil.rmtree(top, ignore_errors=True)
        return col
    return job


def synthetic(ids, values, times, xs):
    """results of every type, components sorted by identifier as Grazer sorts them"""
    st = {"nodes": {}, "connections": {}}
    ct = {"connections": {}}
    groups = {t: [] for t in POWER + GAS}
    order = list(GAS[:1] + POWER[:1] + GAS[4:] + POWER[3:4] + GAS[1:4] + POWER[1:3] + POWER[4:])
    for n, i in enumerate(ids):
        groups[order[n % len(order)]].append(i)
    count = itertools.count()

    def v():
        return values[next(count) % len(values)]
    for typ, mine in groups.items():
        for cid in sorted(mine):
            if typ in POWER:
                st["nodes"].setdefault(typ, []).append({"id": cid, "data": [{"time": t, "P": v(), "Q": v(), "V": v(), "phi": v()} for t in times]})
            else:
                pts = xs if typ == "Pipe" else xs[:1] if typ == "Gaspowerconnection" else [0, 1]
                st["connections"].setdefault(typ, []).append({"id": cid, "data": [
                    {"time": t, "pressure": [{"x": x, "value": v()} for x in pts], "flow": [{"x": x, "value": v()} for x in pts]} for t in times]})
                if typ in ("Controlvalve", "Compressorstation"):
                    ct["connections"].setdefault(typ, []).append({"id": cid, "data": [{"time": t, "values": [v()]} for t in times]})
    return st, ct


def failing_case(find_exe, scratch, make):
    """the result cannot be written: the tool must not report success"""
    def job():
        col = Collector()
        st, ct = synthetic(["g", "p"], [1.5, -2.0], [0, 1], [0, 5.0])
        ct = {"connections": {"Controlvalve": [{"id": "c", "data": [{"time": 0, "values": [1]}]}]}}
        cases = [("power table", "generate_printing_csv", ["states.json", "p"], "p.csv"), ("gas table", "generate_printing_csv", ["states.json", "g"], "g_flow.csv"),
                 ("second gas table", "generate_printing_csv", ["states.json", "g"], "g_pressure.csv"),
                 ("control table", "generate_control_printing_csv", ["controls.json", "c"], "c.csv"),
                 ("initial values", "extract_new_initial_condition", ["states.json", "new.json", "1"], "new.json")]
        for what, prog, args, target in cases:
            for how in ("directory", "full"):
                top = tempfile.mkdtemp(dir=scratch)
                try:
                    osmc.put(top, {"states.json": st, "controls.json": ct})
                    if how == "directory":
                        os.mkdir(os.path.join(top, target))
                    else:
                        os.symlink("/dev/full", os.path.join(top, target))
                    rc, text = tool([find_exe(prog)] + args, top)
                    col.runs += 1
                    col.transitions += 1
                    col.states.add(what + how)
                    col.expect(isinstance(rc, int) and rc > 0, "%s, %s" % (what, how), "unwritten", "reports %s though nothing could be written: %s" % (rc, text[-300:]))
                finally:
                    shutil.rmtree(top, ignore_errors=True)
        # components that were never simulated have no tables and no state
        for what, prog, args, target in cases[:2] + cases[4:]:
            for empty in ([], None):
                part = copy.deepcopy(st)
                for _, _, c in components(part):
                    if c["id"] in ("g", "p"):
                        c["data"] = empty
                        if empty is None:
                            del c["data"]
                top = tempfile.mkdtemp(dir=scratch)
                try:
                    osmc.put(top, {"states.json": part})
                    rc, text = tool([find_exe(prog)] + args, top)
                    col.runs += 1
                    col.expect(isinstance(rc, int) and (rc == 0 or rc in (1, 2) or rc == -6 and "what():" in text), what + ", no data", "no data", "ended with %s: %s" % (rc, text[-300:]))
                    if prog == "extract_new_initial_condition":
                        col.expect(rc != 0 and not os.path.exists(os.path.join(top, target)), what + ", no data", "no data", "initial values from no data: %s" % text[-300:])
                finally:
                    shutil.rmtree(top, ignore_errors=True)
        return col
    return job


def containment(exe, depth):
    """every name of up to so many parts, below directories of up to three"""
    col = Collector()
    cases = []
    for root in ("/", "/a", "/a/b", "/b.csv/a", "/a/a/b.csv"):
        for n in range(1, depth + 1):
            for parts in itertools.product(("a", "b", "..", ".", "b.csv"), repeat=n):
                for name in ("/".join(parts), "/" + "/".join(parts), "/".join(parts) + "/"):
                    cases.append((root, name))
    r = subprocess.run([exe, "inside"], input="".join("%s\t%s\n" % c for c in cases), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    answers = r.stdout.split()
    for (root, name), got in zip(cases, answers):
        col.runs += 1
        full = os.path.normpath(os.path.join(root, name)).replace("//", "/")
        want = "in" if full == root or full.startswith(root.rstrip("/") + "/") else "out"
        if got not in ("in", "out"):
            break
        col.expect(got == want, "containment", "containment", "%r from %r leads to %s, which is said to be %s of it" % (name, root, full, got))
    col.count("names", len(cases))
    done = sum(1 for a in answers if a in ("in", "out"))
    col.expect(r.returncode == 0 and done == len(cases), "containment", "containment crash",
               "ended with %s at %r: %s" % (r.returncode, cases[min(done, len(cases) - 1)], r.stdout[-300:]))
    return col


def run21(tier, scratch, find_exe, REPO, VERIF):
    thorough = tier == "thorough"
    jobs = []
    bad = ["nobody", "", "zzz", "../up", "../../up", "a/../../../up", "/../up", "../work/back"]
    bad += [os.path.join(scratch, "absolute")]
    names = ["n1", "n10", "n2", "N3", "_4", "z", "a b", "\u00e4", "n", "m-1", "m.1", "0", "10", "9", "~"]
    values = [0, 1, -1, 0.1, -0.0, 1e-300, 1.7976931348623157e308, 0.30000000000000004, 123456789.12345678, -7.5e-5, 2 ** 53, 1e22, 60.5]
    for rot in range(len(values) if thorough else 4):
        vals = values[rot:] + values[:rot]
        for shift in range(len(names) if thorough else 3):
            ids = names[shift:] + names[:shift]
            for times in ([0, 0.1, 0.2], [-1e-3], [1e9, 1e9 + 1 / 3]):
                for xs in ([0.0, 12000.0], [0.0, 1 / 3, 2 / 3]):
                    st, ct = synthetic(ids, vals, times, xs)
                    jobs.append(csv_case("synthetic %d %d %s %s" % (rot, shift, times, xs), st, ct, bad if (rot, shift) == (0, 0) else bad[:2], find_exe, scratch))
    # identifiers that lead elsewhere, in the results themselves
    for cid in ["../up", "../../up", "x/../../../up", "../work/back", "sub/in", "..", ".", "x/.."]:
        for typ in POWER[:1] + GAS[:1] + GAS[4:]:
            st, ct = {"nodes": {}, "connections": {}}, {"connections": {}}
            if typ in POWER:
                st["nodes"][typ] = [{"id": cid, "data": [{"time": 0, "P": 1, "Q": 2, "V": 3, "phi": 4}]}]
            else:
                st["connections"][typ] = [{"id": cid, "data": [{"time": 0, "pressure": [{"x": 0, "value": 1}], "flow": [{"x": 0, "value": 1}]}]}]
                ct["connections"][typ] = [{"id": cid, "data": [{"time": 0, "values": [1]}]}]
            jobs.append(csv_case("identifier %s of a %s" % (cid, typ), st, ct if typ == "Controlvalve" else None, [], find_exe, scratch))
    jobs.append(failing_case(find_exe, scratch, None))
    jobs.append(lambda: containment(find_exe("d_output"), 5 if thorough else 4))

    # results of Grazer itself, whatever order the input has
    def real(what, files):
        def job():
            top = tempfile.mkdtemp(dir=scratch)
            col = Collector()
            try:
                rc, text, out = simulate(find_exe("grazer"), top, "whole", files)
                if not col.expect(rc == 0 and out, what, "whole", "the simulation does not work: %s" % text[-600:]):
                    return col
                cp = os.path.join(os.path.dirname(out), "controls.json")
                st, ct = load(out), load(cp) if os.path.exists(cp) else None
            finally:
                shutil.rmtree(top, ignore_errors=True)
            col.merge(csv_case(what, st, ct, bad[:1], find_exe, scratch)())
            return col
        return job
    for n, edges in enumerate(itertools.product(("Pipe", "Shortpipe", "Controlvalve", "Compressorstation"), repeat=3 if thorough else 2)):
        jobs.append(real("results of line %s" % "-".join(edges), gas_line(edges + ("Pipe",) * 2 + edges[:1] * 2, True, -1, clock(0.0, 0.1, 3), 6000.0, True, True)))
    for n in range(1, 4):
        for types in itertools.product(("PQnode", "PVnode", "Vphinode", "StochasticPQnode"), repeat=n):
            if thorough or n < 3 or len(set(types)) < 3:
                jobs.append(real("results of star %s" % "-".join(types), power_star(types, clock(0.0, 0.1, 3))))
    jobs.append(real("results of the coupled network", coupled(clock(0.0, 600.0, 2), True)))
    for optimize in (True,):
        for steps in (2, 3):
            jobs.append(real("results of an optimization with %d steps" % steps, {k[len("case/problem/"):]: v for k, v in osmc.chain(optimize=True, steps=steps).items()}))
    return osmc.parallel(jobs).result()
