"""C07: every single defect of every input file of some problems, against an independent description of valid input.

Every JSON value of every file is removed, replaced by every value of an alphabet, renamed, doubled or
reordered, and every file is missing, a directory, empty, cut short or not JSON at all. The real executable runs on each.
"""
import copy, json, math, os, resource, shutil, subprocess, tempfile
from concurrent.futures import ProcessPoolExecutor
import osmc
from osmc import Collector

END = 1800.0


# ------------------------------------------------------------------ problems
def ts(v, w=None):
    return [{"time": 0, "values": v}, {"time": END, "values": v if w is None else w}]


def coupled():
    """gas and power components of every type"""
    q = {"unit": "km", "value": 10}
    pd = {"simulation_settings": {"use_simplified_newton": False, "maximal_number_of_newton_iterations": 30, "tolerance": 1e-7,
                                  "retries": 1, "start_time": 0, "end_time": END, "desired_delta_t": 900},
          "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json",
                           "defaults": {"Pipe": {"balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme", "desired_delta_x": 5000},
                                        "StochasticPQnode": {"stability_parameter": 1.0, "cut_off_factor": 0.2}}},
          "control_settings": {"number_of_steps": 3}}
    pipe = {"length": q, "diameter": {"unit": "mm", "value": 600}, "roughness": {"unit": "m", "value": 1e-5}}
    top = {"nodes": {"Pressureboundarynode": [{"id": "pb"}], "Innode": [{"id": "i1"}, {"id": "i2"}], "Sink": [{"id": "si"}], "Source": [{"id": "so"}],
                     "ExternalPowerplant": [{"id": "pl", "G": 0.4, "B": -8}], "PQnode": [{"id": "pq", "G": 1.9, "B": -28}],
                     "PVnode": [{"id": "pv", "G": 1.9, "B": -28}], "Vphinode": [{"id": "vp", "G": 0.4, "B": -8}],
                     "StochasticPQnode": [{"id": "st", "G": 0.4, "B": -8, "sigma_P": 0.01, "theta_P": 0.3, "sigma_Q": 0.01, "theta_Q": 0.3,
                                           "number_of_stochastic_steps": 50}]},
           "connections": {"Pipe": [dict(pipe, id="p1", **{"from": "pb", "to": "i1"})],
                           "Shortpipe": [{"id": "sp", "from": "i1", "to": "i2"}],
                           "Controlvalve": [{"id": "cv", "from": "i2", "to": "si"}],
                           "Compressorstation": [{"id": "cs", "from": "i2", "to": "so"}],
                           "Gaspowerconnection": [{"id": "gp", "from": "i1", "to": "pl", "gas2power_q_coeff": 0.01, "power2gas_q_coeff": 0.012}],
                           "Transmissionline": [{"id": "t1", "from": "pl", "to": "pq", "G": -0.4, "B": 8},
                                                {"id": "t2", "from": "pq", "to": "pv", "G": -1.5, "B": 20},
                                                {"id": "t3", "from": "pv", "to": "vp", "G": -0.4, "B": 8},
                                                {"id": "t4", "from": "st", "to": "pv", "G": -0.4, "B": 8}]}}
    top["nodes"]["PVnode"][0].update(G=2.3, B=-36)
    bnd = {"nodes": {"Pressureboundarynode": [{"id": "pb", "data": ts([60.0])}], "Sink": [{"id": "si", "data": ts([20.0], [22.0])}],
                     "Source": [{"id": "so", "data": ts([4.0])}],
                     "ExternalPowerplant": [{"id": "pl", "data": ts([1.0, 0.0])}], "PQnode": [{"id": "pq", "data": ts([-0.2, -0.05])}],
                     "PVnode": [{"id": "pv", "data": ts([-0.1, 1.0])}], "Vphinode": [{"id": "vp", "data": ts([1.0, 0.0])}],
                     "StochasticPQnode": [{"id": "st", "data": ts([-0.1, -0.02]), "seed": [1, 2, 3, 4, 5, 6, 7, 8]}]}}
    short = [{"x": 0, "values": [60.0, 20.0]}, {"x": 1, "values": [60.0, 20.0]}]
    v = [{"x": 0, "values": [1.0, 0.0]}]
    ini = {"nodes": {t: [{"id": c["id"], "data": copy.deepcopy(v)}] for t in ("ExternalPowerplant", "PQnode", "PVnode", "Vphinode", "StochasticPQnode")
                     for c in top["nodes"][t]},
           "connections": {"Pipe": [{"id": "p1", "data": [{"x": 0.0, "values": [60.0, 20.0]}, {"x": 10000.0, "values": [60.0, 20.0]}]}],
                           "Shortpipe": [{"id": "sp", "data": copy.deepcopy(short)}], "Controlvalve": [{"id": "cv", "data": copy.deepcopy(short)}],
                           "Compressorstation": [{"id": "cs", "data": copy.deepcopy(short)}],
                           "Gaspowerconnection": [{"id": "gp", "data": [{"x": 0, "values": [60.0, 0.0]}]}]}}
    con = {"connections": {"Controlvalve": [{"id": "cv", "data": ts([1.0])}], "Compressorstation": [{"id": "cs", "data": ts([0.0])}]}}
    return {"problem_data.json": pd, "topology.json": top, "boundary.json": bnd, "initial.json": ini, "control.json": con}


def chain(optimize):
    return {k[len("case/problem/"):]: v for k, v in osmc.chain(optimize=optimize, steps=2).items()}


# ------------------------------------------------------------------ what valid input is
class Bad(Exception):
    pass


def need(cond, why):
    if not cond:
        raise Bad(why)


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


POWER = {"ExternalPowerplant", "PQnode", "PVnode", "StochasticPQnode", "Vphinode"}
GASNODE = {"ConstraintSink", "Innode", "Pressureboundarynode", "Sink", "Source"}
BOUNDARY = {"ConstraintSink": 1, "Pressureboundarynode": 1, "Sink": 1, "Source": 1, "ExternalPowerplant": 2, "PQnode": 2, "PVnode": 2,
            "StochasticPQnode": 2, "Vphinode": 2}
STATE = dict({k: 2 for k in POWER}, Compressorstation=2, Controlvalve=2, Gaspowerconnection=2, Pipe=2, Shortpipe=2)
CONTROL = {"Compressorstation", "Controlvalve"}
EDGES = {"Compressorstation", "Controlvalve", "Gaspowerconnection", "Pipe", "Shortpipe", "Transmissionline"}
GASEDGE = EDGES - {"Transmissionline"}
NUMBERS = {"Transmissionline": ("G", "B"), "Gaspowerconnection": ("gas2power_q_coeff", "power2gas_q_coeff"), "Pipe": ("desired_delta_x",),
           "StochasticPQnode": ("G", "B", "stability_parameter", "cut_off_factor", "sigma_P", "theta_P", "sigma_Q", "theta_Q",
                                "number_of_stochastic_steps")}
for t in POWER - {"StochasticPQnode"}:
    NUMBERS[t] = ("G", "B")
UNITS = {"m": 1, "km": 1000, "mm": 0.001}


def components(j, what):
    """(class, type, component) of a file; its structure must be right"""
    need(isinstance(j, dict), what + " is not an object")
    out, ids = [], set()
    for cls in ("nodes", "connections"):
        if cls not in j:
            continue
        need(isinstance(j[cls], (dict, list, type(None))), "%s[%s]" % (what, cls))
        if not isinstance(j[cls], dict):
            need(not j[cls], "%s[%s]" % (what, cls))  # nothing in it
            continue
        for typ, lst in j[cls].items():
            if lst is None or lst == {}:
                continue
            need(isinstance(lst, list), "%s %s is no list" % (what, typ))
            for c in lst:
                need(isinstance(c, dict) and isinstance(c.get("id"), str), "%s %s without id" % (what, typ))
                out.append((cls, typ, c))
    return out


def check_series(data, n, key, start, end, what, cover=True):
    need(isinstance(data, list) and data, what + " has no data")
    for d in data:
        need(isinstance(d, dict) and isnum(d.get(key)), what + " without " + key)
        v = d.get("values")
        need(isinstance(v, list) and len(v) == n and all(isnum(x) for x in v), what + " values")
    t = [d[key] for d in data]
    need(all(b >= a for a, b in zip(t, t[1:])), what + " not sorted")
    if cover:
        need(t[0] <= start + 1e-6 and t[-1] >= end - 1e-6, what + " does not cover the times")


def length(j):
    need(isinstance(j, dict) and set(j) == {"value", "unit"}, "measure")
    need(isnum(j["value"]) and isinstance(j["unit"], str) and j["unit"] in UNITS, "measure")
    return j["value"] * UNITS[j["unit"]]


def validate(files):
    """raises Bad for input that cannot be right; the rest may still turn out to be without a solution"""
    def get(name):
        f = files.get(name)
        if f == "null":
            f = {}
        need(isinstance(f, (dict, list)) and not isinstance(f, list), name + " missing or no object")
        return f
    pd = get("problem_data.json")
    s = pd.get("simulation_settings")
    need(isinstance(s, dict), "no settings")
    for k in ("tolerance", "start_time", "end_time", "desired_delta_t"):
        need(isnum(s.get(k)), k)
    for k in ("maximal_number_of_newton_iterations", "retries"):
        need(isnum(s.get(k)) and s[k] == int(s[k]) and 0 <= s[k] < 2 ** 31, k)
    need(isinstance(s.get("use_simplified_newton"), bool), "use_simplified_newton")
    need(s["end_time"] > s["start_time"] and s["desired_delta_t"] > 0, "time grid")
    need((s["end_time"] - s["start_time"]) / s["desired_delta_t"] < 2 ** 31 - 1, "too many steps")
    start, end = s["start_time"], s["end_time"]
    p = pd.get("problem_data")
    need(isinstance(p, dict), "no problem_data")

    def part(key):
        v = p.get(key)
        if isinstance(v, dict):
            return v
        need(isinstance(v, str), key)
        return get(os.path.basename(v)) if os.path.basename(v) == v else need(False, key)
    top, bnd = part("topology_json"), part("boundary_json")
    defaults = p.get("defaults", {})
    need(isinstance(defaults, dict), "defaults")
    tc = components(top, "topology")
    ids = [c["id"] for _, _, c in tc]
    need(len(set(ids)) == len(ids), "id twice")
    known = {"nodes": POWER | GASNODE, "connections": EDGES}
    for cls in known:
        if isinstance(top.get(cls), dict):
            for typ in top[cls]:
                need(typ in known[cls], "unknown type " + typ)
    bc = components(bnd, "boundary")
    bids = [c["id"] for _, _, c in bc]
    need(len(set(bids)) == len(bids), "id twice in the boundary values")
    nodetype = {c["id"]: t for cls, t, c in tc if cls == "nodes"}
    used = {}
    for cls, typ, c in tc:
        dflt = defaults.get(typ, {})
        need(isinstance(dflt, dict), "defaults of " + typ)
        full = dict(copy.deepcopy(dflt), **c)
        for k in NUMBERS.get(typ, ()):
            need(isnum(full.get(k)), "%s of %s" % (k, typ))
        if cls == "connections":
            for k in ("from", "to"):
                need(isinstance(full.get(k), str) and full[k] in nodetype, "%s of %s" % (k, c["id"]))
            need(full["from"] != full["to"], "self loop")
            f, t = nodetype[full["from"]], nodetype[full["to"]]
            if typ == "Transmissionline":
                need(f in POWER and t in POWER, "line between other nodes")
            elif typ == "Gaspowerconnection":
                need(f in GASNODE and t == "ExternalPowerplant", "connection between other nodes")
            else:
                need(f in GASNODE and t in GASNODE, "gas edge between other nodes")
            for k in ("from", "to"):
                used.setdefault(full[k], []).append(typ)
        if typ == "Pipe":
            need(length(full.get("length")) > 0 and length(full.get("diameter")) > 0 and length(full.get("roughness")) >= 0, "dimensions")
            need(full["desired_delta_x"] > 0, "desired_delta_x")
            need(length(full["length"]) / full["desired_delta_x"] < 2 ** 31 - 1, "too many points")
            need(full.get("balancelaw") == "Isothermaleulerequation" or isinstance(full.get("balancelaw"), str), "balancelaw")
            need(full.get("scheme") == "Implicitboxscheme", "scheme")
        if typ == "StochasticPQnode":
            need(0 < full["stability_parameter"] < 2, "stability_parameter")
            need(full["theta_P"] >= 0 and full["theta_Q"] >= 0 and 0 <= full["number_of_stochastic_steps"] < 2 ** 31, "stochastic parameters")
        if typ in BOUNDARY:
            b = [x for bcls, t, x in bc if bcls == cls and t == typ and x["id"] == c["id"]]
            need(b, "no boundary values for " + c["id"])
            # the first time boundary values are needed for is the one after the start
            steps = math.ceil((end - start) / s["desired_delta_t"])
            check_series(b[0].get("data"), BOUNDARY[typ], "time", start + (end - start) / steps, end, "boundary of " + c["id"])
            if "seed" in b[0] and typ == "StochasticPQnode":
                sd = b[0]["seed"]
                need(isinstance(sd, list) and len(sd) == 8 and all(isnum(x) and 0 <= x < 2 ** 32 and x == int(x) for x in sd), "seed")
    for typ, d in defaults.items():
        allowed = {"id", "from", "to", "boundary_values"} | set(NUMBERS.get(typ, ())) | (
            {"length", "diameter", "roughness", "balancelaw", "scheme"} if typ == "Pipe" else set())
        if typ in known["nodes"] | known["connections"]:
            need(isinstance(d, dict), "defaults of " + typ)
            for k in d:
                need(k in allowed, "default for unknown " + k)
    ini = components(get("initial.json"), "initial")
    cids = {c["id"]: t for _, t, c in tc}
    for cid, typ in cids.items():
        if typ not in STATE:
            continue
        mine = [c for _, _, c in ini if c["id"] == cid]
        need(mine, "no initial values for " + cid)
        for m in mine:
            check_series(m.get("data"), STATE[typ], "x", 0, 0, "initial of " + cid, cover=False)
            x = [d["x"] for d in m["data"]]
            if typ == "Pipe":
                c = dict(copy.deepcopy(defaults.get("Pipe", {})), **[c for _, t, c in tc if c["id"] == cid][0])
                need(min(x) <= 1e-6 and max(x) >= length(c["length"]) - 1e-6, "initial values do not cover the pipe")
            elif typ in GASEDGE and typ != "Gaspowerconnection":
                need(x == [0, 1], "initial values of " + cid)
            else:
                need(len(x) == 1, "initial values of " + cid)
    # the two ends of a short edge etc. are not compared with each other: they are only where the solver starts
    controlled = [cid for cid, t in cids.items() if t in CONTROL]
    cs = pd.get("control_settings")
    cstart, cend = start, end
    if controlled:
        if cs is not None or "control_settings" in pd:
            if isinstance(cs, dict):
                need(("desired_delta_t" in cs) != ("number_of_steps" in cs), "control_settings")
                if "desired_delta_t" in cs:
                    need(isnum(cs["desired_delta_t"]) and cs["desired_delta_t"] > 0, "control step")
                else:
                    need(isnum(cs["number_of_steps"]) and 2 <= cs["number_of_steps"] < 2 ** 31 and cs["number_of_steps"] == int(cs["number_of_steps"]), "number of control points")
            else:
                need(False, "control_settings")
        optimize = pd.get("optimize") is True
        names = ["control.json"] + (["lower_bounds.json", "upper_bounds.json"] if optimize else [])
        for name in names:
            f = components(get(name), name)
            for cid in controlled:
                mine = [c for _, _, c in f if c["id"] == cid]
                need(mine, "%s has nothing for %s" % (name, cid))
                for m in mine:
                    check_series(m.get("data"), 1, "time", cstart, cend, name + " of " + cid)
    need(isinstance(pd.get("optimize", False), bool), "optimize")
    if pd.get("optimize") is True:
        need(controlled, "nothing to control")
        con = [cid for cid, t in cids.items() if t == "ConstraintSink"]
        cst = pd.get("constraint_settings", {})
        need(isinstance(cst, dict), "constraint_settings")
        every = cst.get("evaluate_constraints_every_n", 1)
        need(isnum(every) and isinstance(every, int), "evaluate_constraints_every_n")
        for name in ("constraint_lower_bounds.json", "constraint_upper_bounds.json"):
            f = components(get(name), name)
            for cid in con:
                mine = [c for _, _, c in f if c["id"] == cid]
                need(mine, "%s has nothing for %s" % (name, cid))
                for m in mine:
                    # the times needed depend on the spacing of the constraints
                    check_series(m.get("data"), 1, "time", start, end, name, cover=False)
    return cids, used


# ------------------------------------------------------------------ defects
def paths(j, at=()):
    yield at
    if isinstance(j, dict):
        for k in j:
            yield from paths(j[k], at + (k,))
    elif isinstance(j, list):
        for k in range(len(j)):
            yield from paths(j[k], at + (k,))


def look(j, p):
    for k in p:
        j = j[k]
    return j


def changed(j, p, new):
    """a copy with the value at p replaced"""
    if not p:
        return new
    j = copy.copy(j)
    j[p[0]] = changed(j[p[0]], p[1:], new)
    return j


DELETE = object()


def removed(j, p):
    j = copy.deepcopy(j)
    del look(j, p[:-1])[p[-1]]
    return j


def defects(files, ids, thorough):
    """(description, file, its new content)"""
    for name, j in files.items():
        def out(p, what, new):
            if not isinstance(new, (dict, list)):
                new = json.dumps(new)
            return "%s /%s %s" % (name, "/".join(map(str, p)), what), name, new
        text = json.dumps(j, indent=1)
        for what, content in (("missing", DELETE), ("directory", None), ("empty", ""), ("spaces", " \n"), ("half", text[:len(text) // 2]), ("almost all", text[:-2]), ("first byte", text[:1]),
                              ("not json", "hello"), ("binary", b"\xff\xfe\x00\x01"), ("single quotes", text.replace('"', "'")), ("trailing comma", text[:-1] + ",}"),
                              ("NaN", text.replace(": 0", ": NaN", 1) if ": 0" in text else "NaN"), ("huge number", text.replace(": 0", ": 1e999", 1) if ": 0" in text else "1e999"),
                              ("deep", "[" * 3000)):
            yield "%s %s" % (name, what), name, content
        for p in paths(j):
            v = look(j, p)
            values = [None, True, "", "text", 0, -1, 0.5, 2, 1e300, -1e300, 1e-300, [], {}, [v], {"a": v}, [None], [{}]]
            if isnum(v):
                values += [-v, str(v), v * 1.5, int(v) + 1]
            if isinstance(v, int) and not isinstance(v, bool):
                # become v again, when they are cut to 32 or 64 bits
                values += [2 ** 32 + v, 2 ** 64 + v, -2 ** 32 + v]
            if isinstance(v, str):
                values += [i for i in ids if i != v] + ["Isothermaleulerequation", "Implicitboxscheme", "km", "problem_data.json", "../x.json", "/nonexistent.json"]
            if isinstance(v, bool):
                values += [not v]
            for new in values:
                if json.dumps(new) == json.dumps(v):
                    continue
                if p and p[-1] in ("desired_delta_x", "desired_delta_t") and isnum(new) and 1e-9 < new < 100:
                    continue  # possible, but takes long
                yield out(p, "is %s" % (json.dumps(new)[:40]), changed(j, p, new))
            if p:
                yield out(p, "removed", removed(j, p))
            if isinstance(v, dict):
                yield out(p, "has another key", changed(j, p, dict(v, another=1)))
                yield out(p, "has a comment", changed(j, p, dict(v, comment={"a": ["b"]})))
                if len(p) == 1 and p[0] in ("nodes", "connections"):
                    yield out(p, "has an empty list of an unknown type", changed(j, p, dict(v, Waterpipe=[])))
                for k in v:
                    new = {(a + "_" if a == k else a): b for a, b in v.items()}
                    yield out(p, "key %s renamed" % k, changed(j, p, new))
                    for k2 in v:
                        if k2 > k and type(v[k]) is type(v[k2]):
                            new = dict(v)
                            new[k], new[k2] = v[k2], v[k]
                            yield out(p, "%s and %s exchanged" % (k, k2), changed(j, p, new))
            if isinstance(v, list):
                for k in range(len(v)):
                    yield out(p, "element %d twice" % k, changed(j, p, v[:k + 1] + v[k:]))
                if len(v) > 1:
                    yield out(p, "reversed", changed(j, p, v[::-1]))
                yield out(p, "one more", changed(j, p, v + [1]))
                if v and len(p) == 2 and p[0] in ("nodes", "connections") and all(isinstance(c, dict) and "id" in c for c in v):
                    first = min(v, key=lambda c: c["id"])
                    for new in ("!", first["id"] + "!", "~"):
                        for k in (0, len(v)):
                            yield out(p, "has a stranger %s at %d" % (new, k), changed(j, p, v[:k] + [dict(v[0], id=new)] + v[k:]))


def clashes(files):
    """two components get the same id, consistently in all files: (description, all files)"""
    top = files["topology.json"]
    comps = [(cls, typ, c["id"]) for cls, typ, c in components(top, "")]
    for cls, typ, a in comps:
        for _, _, b in comps:
            if a == b:
                continue
            new = dict(files)
            for name, j in files.items():
                if not isinstance(j, dict) or not set(j) & {"nodes", "connections"}:
                    continue
                new[name] = j = copy.deepcopy(j)
                for group in j.values():
                    for t, lst in group.items():
                        for c in lst:
                            if t == typ and c.get("id") == a:
                                c["id"] = b
                            if cls == "nodes":
                                for k in ("from", "to"):
                                    if c.get(k) == a:
                                        c[k] = b
            yield "topology.json: %s %s is called %s, everywhere" % (typ, a, b), new


# ------------------------------------------------------------------ running
LIMIT = 6 << 30


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (LIMIT, LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (200 << 20, 200 << 20))


def run_grazer(exe, files, scratch, asan=False):
    top = tempfile.mkdtemp(dir=scratch)
    try:
        osmc.put(top, {"case/problem/" + k: v for k, v in files.items()})
        env = {"PATH": os.environ["PATH"], "LC_ALL": "C", "TZ": "UTC", "ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:max_allocation_size_mb=4000"}
        try:
            r = subprocess.run([exe, "run", "case"], cwd=top, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60,
                               stdin=subprocess.DEVNULL, preexec_fn=None if asan else limits)
            rc, text = r.returncode, r.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, text = "hang", (e.stdout or b"").decode("utf8", "replace")
        snap = osmc.snapshot(top)
        return rc, text, snap
    finally:
        shutil.rmtree(top, ignore_errors=True)


def results(snap):
    out = {}
    for p, c in snap.items():
        parts = p.split(os.sep)
        if parts[:2] == ["case", "output"] and len(parts) == 4 and parts[3] in ("states.json", "controls.json"):
            out[parts[3]] = c
    return out


def finite(j):
    if isinstance(j, dict):
        return all(finite(v) for v in j.values())
    if isinstance(j, list):
        return all(finite(v) for v in j)
    return j is not None and (not isinstance(j, float) or math.isfinite(j))


def one(col, exe, scratch, base, what, files, reference, asan=False):
    sc = "%s: %s" % (base, what)
    try:
        cids, used = validate(files)
        why = None
    except Bad as e:
        why = str(e)
    except (OverflowError,) as e:
        why = "overflow"
    rc, text, snap = run_grazer(exe, files, scratch, asan)
    col.runs += 1
    col.states.add(sc)
    if not col.samples:
        col.samples.append(sc)
    col.count("invalid" if why else "possibly valid")
    if not col.expect(rc in (0, 1), sc, "crash" if rc != "hang" else "hang", "exit status %s: %s" % (rc, text[-700:])):
        return
    if asan:
        col.expect("runtime error" not in text and "AddressSanitizer" not in text, sc, "memory", text[-1500:])
    given = {"case/problem/" + k: (v if isinstance(v, bytes) else v.encode() if isinstance(v, str) else v if v is None else json.dumps(v, indent=1).encode()) for k, v in files.items()}
    left = {p: c for p, c in snap.items() if p not in ("case", "case/problem") and not p.startswith("case/output")}
    col.expect(left == given, sc, "files", "files besides the output changed: %s" % sorted(set(left) ^ set(given)))
    neutral = not why and (what.endswith(" has another key") or what.endswith(" has a comment") or (" has a stranger " in what and not what.startswith("topology.json")))
    if neutral:
        col.count("neutral")
        col.expect(rc == 0, sc, "refused", "additional content is refused: %s" % text[-700:])
    if why:
        col.count("refused" if rc == 1 else "wrongly accepted")
        col.expect(rc == 1, sc, "accepted", "input that cannot be right is accepted (%s); %s" % (why, what))
    if rc == 1:
        # an error message, not only the progress report
        col.expect("[Error]" in text or "error" in text.lower() or "exception" in text.lower(), sc, "message", "fails without a message: %s" % text[-300:])
        msg = text.split("[Error]:")[-1].strip()
        col.expect(len(msg) > 3, sc, "message", "fails with an empty message: %s" % text[-300:])
        return
    col.count("accepted")
    res = results(snap)
    if not col.expect("states.json" in res, sc, "results", "no results"):
        return
    try:
        st = json.loads(res["states.json"])
    except ValueError as e:
        col.bad(sc, "results", "states.json: %s" % e)
        return
    if "1e+300" not in what or not what.startswith("initial"):  # the results at the first time are computed from the initial values
        col.expect(st is None or finite(st), sc, "results", "results that are not numbers")
    if neutral:
        col.expect(res == reference, sc, "neutral", "additional content changes the results")
    if not why and col.expect(st is not None or not set(cids.values()) & set(STATE), sc, "results", "empty results"):
        have = {c["id"] for cls in (st or {}).values() for lst in (cls or {}).values() for c in lst}
        for cid, typ in cids.items():
            if typ in STATE:
                col.expect(cid in have, sc, "results", "no results for %s" % cid)


def work(args):
    """one process' share"""
    exe, scratch, tier, k, n, asan = args
    col = Collector()
    bases = {"simulation": chain(False), "coupled": coupled(), "optimization": chain(True)}
    seen, number = set(), 0
    for base, files in bases.items():
        ids = sorted({c["id"] for _, _, c in components(files["topology.json"], "")})
        validate(files)
        rc, text, snap = run_grazer(exe, files, scratch, asan)
        references = results(snap)
        if k == 0:
            col.runs += 1
            col.expect(rc == 0 and "states.json" in results(snap), base, "refused", "valid input is refused: %s" % text[-800:])
        for what, name, new in defects(files, ids, tier == "thorough"):
            key = (base, name, new if isinstance(new, (str, bytes)) else json.dumps(new) if isinstance(new, (dict, list)) else str(new))
            if hash(key) in seen:
                continue
            seen.add(hash(key))
            number += 1
            if number % n == k:
                changed_files = dict(files)
                if new is DELETE:
                    del changed_files[name]
                else:
                    changed_files[name] = new
                one(col, exe, scratch, base, what, changed_files, references, asan)
        for what, changed_files in clashes(files):
            number += 1
            if number % n == k:
                one(col, exe, scratch, base, what, changed_files, references, asan)
    return col


def sanitized(repo, verif):
    """grazer with address and undefined behaviour sanitizers"""
    build = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(verif, "build")), "sanitized")
    os.makedirs(build, exist_ok=True)
    env = {k: v for k, v in os.environ.items() if k not in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPATH")}
    for cmd in (["cmake", "-S", repo, "-B", build, "-G", "Ninja", "-Wno-dev", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
                 "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g1",
                 "-DCMAKE_CXX_FLAGS=-w -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=undefined,float-cast-overflow -D_GLIBCXX_ASSERTIONS",
                 "-DCMAKE_PROJECT_Grazer_INCLUDE=" + os.path.join(verif, "cmake", "inject.cmake"), "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                 "-DFETCHCONTENT_SOURCE_DIR_JSON=/opt/vp/cmake/json", "-DIPOPT_DIRECTORY=/opt/vp/ipopt"],
                ["ninja", "-C", build, "grazer"]):
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise SystemExit("check: sanitized build failed: " + r.stdout.decode("utf8", "replace")[-3000:])
    return os.path.join(build, "src", "Grazer", "grazer")


def explore(exe, scratch, tier, asan):
    n = 64
    total = Collector()
    with ProcessPoolExecutor(osmc.WORKERS) as pool:
        for c in pool.map(work, [(exe, scratch, tier, k, n, asan) for k in range(n)]):
            total.merge(c)
    return total


def run(tier, scratch, find_exe, repo, verif):
    total = explore(find_exe("grazer"), scratch, tier, False)
    if tier == "thorough":
        total.merge(explore(sanitized(repo, verif), scratch, tier, True))
    return total.result()
