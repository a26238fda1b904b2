"""C22: every sequence of the tools that rewrite a problem's files, on the real executables against a model of each tool."""
import copy, json, math, os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import osmc
from osmc import Collector
from restart import tool, components, POWER, GAS

NAMES = ("topology.json", "boundary.json", "initial.json", "control.json")
SEED = [1, 2, 3, 4, 5, 6, 7, 4294967295]


def problem():
    def two(v, w=None):
        return [{"time": 0, "values": v}, {"time": 10, "values": v if w is None else w}]
    top = {"$schema": "../schemas/topology_schema.json",
           "nodes": {"Source": [{"id": "s2"}, {"id": "s1", "x": 3}], "Sink": [{"id": "k"}], "PQnode": [{"id": "q2", "G": 0.1, "B": -1.5}, {"id": "q1", "G": 0.3, "B": -1e-7}],
                     "PVnode": [{"id": "v", "G": 1, "B": -2}], "StochasticPQnode": [{"id": "z", "G": 1, "B": 2}, {"id": "a", "G": 1, "B": 2}]},
           "connections": {"Pipe": [{"id": "p2", "from": "s1", "to": "k"}, {"id": "p1", "from": "s2", "to": "k"}], "Shortpipe": [{"id": "h", "from": "s1", "to": "s2"}],
                           "Gaspowerconnection": [{"id": "g2p_0_q9", "from": "node_0", "to": "q9", "power2gas_q_coeff": 0.7}],
                           "Compressorstation": [{"id": "c", "from": "s1", "to": "k"}]}}
    bnd = {"nodes": {"Source": [{"id": "s2", "data": two([30.0])}, {"id": "s1", "data": two([12.5])}], "Sink": [{"id": "k", "data": two([40.1], [40.2])}],
                     "PQnode": [{"id": "q1", "data": two([1.0, 0.25])}, {"id": "q2", "data": two([-1, 0])}], "PVnode": [{"id": "v", "data": two([1.0, 1.0])}],
                     "StochasticPQnode": [{"id": "z", "data": two([1, 2]), "seed": [8, 8, 8, 8, 8, 8, 8, 8]}, {"id": "a", "data": two([1, 2])}]},
           "connections": {"Gaspowerconnection": [{"id": "g2p_0_q9", "data": two([0.1])}]}}
    ini = {"nodes": {t: [{"id": i, "data": [{"x": 0, "values": [1.0, 0.0]}]} for i in ids] for t, ids in
                     (("PQnode", ("q1", "q2")), ("PVnode", ("v",)), ("StochasticPQnode", ("a", "z")))},
           "connections": {t: [{"id": i, "data": [{"x": 0, "values": [60.1 + n, 3.3]}, {"x": 1, "values": [59.7, 7.7 + n]}]} for n, i in enumerate(ids)]
                           for t, ids in (("Pipe", ("p1", "p2")), ("Shortpipe", ("h",)), ("Gaspowerconnection", ("g2p_0_q9",)), ("Compressorstation", ("c",)))}}
    con = {"connections": {"Compressorstation": [{"id": "c", "data": two([0.1], [0.3])}]}}
    return json.loads(json.dumps({"topology.json": top, "boundary.json": bnd, "initial.json": ini, "control.json": con}))  # no shared lists


def canonical(files):
    """the order of components means nothing, neither do types without components"""
    out = {}
    for name, j in files.items():
        out[name] = {}
        for k, v in j.items():
            if k not in ("nodes", "connections"):
                out[name][k] = v
                continue
            types = {t: sorted(l, key=lambda c: c["id"]) for t, l in (v or {}).items() if l}
            if types:
                out[name][k] = types
    return json.dumps(out, sort_keys=True)


def same(a, b):
    """equal, numbers up to rounding"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b or (math.isfinite(a) and math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-300))
    return type(a) is type(b) and a == b


# each model: files -> (new files or None when refused); refused means: reported, and nothing changed
def m_normalize(f):
    return f


def m_move(a, b, cid):
    def model(f):
        for j in f.values():
            for cls in ("nodes", "connections"):
                if cls in j and a in j[cls]:
                    mine = [c for c in j[cls][a] if c["id"] == cid]
                    if mine:
                        j[cls][a].remove(mine[0])
                        j[cls].setdefault(b, []).append(mine[0])
        return f
    return model


def m_pressure(d):
    def model(f):
        for t in ("Pipe", "Controlvalve", "Compressorstation", "Shortpipe", "Gaspowerconnection"):
            for c in f["initial.json"].get("connections", {}).get(t, []):
                for p in c["data"]:
                    if not isinstance(p["values"][0], (int, float)):
                        return None
                    p["values"][0] += d
        return f
    return model


def m_inflow(total):
    def model(f):
        sources = f["boundary.json"]["nodes"].get("Source", [])
        if any(len(s["data"]) < 2 for s in sources):
            return None
        if any(s["data"][0]["values"][0] != s["data"][1]["values"][0] for s in sources):
            return None
        old = 0.0
        for s in sources:
            old += s["data"][0]["values"][0]
        if sources and old == 0:
            return None
        for s in sources:
            for k in (0, 1):
                s["data"][k]["values"][0] = s["data"][k]["values"][0] * total / old
        return f
    return model


def m_positions(pos):
    def model(f):
        at = {(cls, typ, c["id"]): c for cls, typ, c in components(pos)}
        for cls, typ, c in components({k: v for k, v in f["topology.json"].items() if k in ("nodes", "connections")}):
            if typ not in pos.get(cls, {}):
                continue
            p = at.get((cls, typ, c["id"]))
            if not p:
                return None
            c["x"], c["y"] = p["x"], p["y"]
        return f
    return model


def m_include(states):
    def model(f):
        mine = {c["id"]: c for c in f["boundary.json"]["nodes"].get("StochasticPQnode", [])}
        for c in states["nodes"]["StochasticPQnode"]:
            if c["id"] not in mine or "seed" not in c:
                return None
        for c in states["nodes"]["StochasticPQnode"]:
            mine[c["id"]]["seed"] = c["seed"]
        return f
    return model


def m_remove(f):
    for _, _, c in components({k: v for k, v in f["boundary.json"].items() if k in ("nodes", "connections")}):
        c.pop("seed", None)
    return f


def m_connect(a, b):
    cid = "g2p_%s_%s" % (a, b)

    def model(f):
        for name in ("topology.json", "boundary.json", "initial.json"):
            if any(c["id"] == cid for c in f[name]["connections"].get("Gaspowerconnection", [])):
                return None
        for name in ("topology.json", "boundary.json", "initial.json"):
            l = f[name]["connections"]["Gaspowerconnection"]
            new = copy.deepcopy(l[0])
            new["id"] = cid
            if name == "topology.json":
                new["from"], new["to"] = "node_" + a, b
            l.insert(0, new)
        return f
    return model


def reported(rc, text):
    """failed with a message, not by accident"""
    return rc == 1 or (rc == -6 and "what():" in text)


def operations(top, thorough):
    """name, executable, arguments, directory (of the problem's files or its parent), model"""
    full = {"nodes": {t: [{"id": i, "x": n + k * 0.5, "y": -n} for n, i in enumerate(ids)] for k, (t, ids) in enumerate(
        (("Source", ("s1", "s2", "extra")), ("Sink", ("k",)), ("PQnode", ("q1", "q2", "v", "a0")), ("PVnode", ("q1", "q2", "v"))))},
        "connections": {"Unknown": [{"id": "u", "x": 1, "y": 2}]}}
    seeds = {"nodes": {"PQnode": [{"id": "q1", "data": []}], "StochasticPQnode": [{"id": "a", "data": [], "seed": SEED}, {"id": "z", "data": [], "seed": SEED[::-1]}]}}
    one = {"nodes": {"StochasticPQnode": [{"id": "z", "data": [], "seed": SEED}]}}
    unknown = {"nodes": {"StochasticPQnode": [{"id": "a", "data": [], "seed": SEED}, {"id": "nobody", "data": [], "seed": SEED}]}}
    seedless = {"nodes": {"StochasticPQnode": [{"id": "a", "data": [], "seed": SEED}, {"id": "z", "data": []}]}}
    gap = copy.deepcopy(full)
    del gap["nodes"]["PQnode"][0]
    end = copy.deepcopy(full)
    del end["nodes"]["PQnode"][1:3]
    moved = copy.deepcopy(full)
    for _, _, c in components(moved):
        c["x"], c["y"] = -c["y"] - 3, c["x"] * 2 + 1
    given = {"full": full, "moved": moved, "gap": gap, "end": end, "seeds": seeds, "one": one, "unknown": unknown, "seedless": seedless}
    osmc.put(top, {"given/%s.json" % k: v for k, v in given.items()})

    def g(k):
        return os.path.join(top, "given", k + ".json")
    ops = [("normalize", "normalize_jsons", [], "problem", m_normalize)]
    for a, b, i in (("PQnode", "PVnode", "q1"), ("PQnode", "PVnode", "q2"), ("PVnode", "PQnode", "q1"), ("PVnode", "Vphinode", "v"), ("PQnode", "PQnode", "q2"),
                    ("Source", "Sink", "s1"), ("Pipe", "Shortpipe", "p1"), ("Shortpipe", "Pipe", "h"), ("Compressorstation", "Controlvalve", "c"),
                    ("PQnode", "PVnode", "nobody"), ("Nothing", "PVnode", "q1")):
        ops.append(("move %s from %s to %s" % (i, a, b), "move_to_category", [a, b, i], "problem", m_move(a, b, i)))
    for d in (5.0, -0.1):
        ops.append(("increase pressure by %r" % d, "increase_pressure", [".", repr(d)], "", m_pressure(d)))
    for v in (85.0, 0.3, 0.0):
        ops.append(("inflow %r" % v, "change_inflow", [repr(v)], "", m_inflow(v)))
    for k in ("full", "moved", "gap", "end"):
        ops.append(("positions " + k, "insert_positions", ["topology.json", g(k), "topology.json"], "problem", m_positions(given[k])))
    for k in ("seeds", "one", "unknown", "seedless"):
        ops.append(("include " + k, "include_seed_in_boundaryvalues", [".", g(k)], "", m_include(given[k])))
    ops.append(("remove seeds", "remove_seed_from_boundaryvalues", ["."], "", m_remove))
    for a, b in (("1", "q1"), ("0", "q9"), ("7", "q2")):
        ops.append(("connect %s to %s" % (a, b), "construct_gaspowerconnection", [a, b], "problem", m_connect(a, b)))
    return ops


def disturbances(scratch, verif, ops, exes):
    """one tool, any one of its file operations failing, cut short or never happening: every file is the old or the new one"""
    lib = osmc.shim(scratch, verif)
    files = {"case/problem/" + k: v for k, v in problem().items()}
    files["case/problem/bystander.json"] = "{}"

    def one(op):
        name, prog, args, where, _ = op
        args = ["positioned.json" if prog == "insert_positions" and n == 2 else a for n, a in enumerate(args)]
        top = tempfile.mkdtemp(dir=scratch)
        osmc.put(top, files)
        before = osmc.snapshot(top)
        rc0, text = osmc.execute([exes[prog]] + args, top, lib, log=top + ".log", cwd=os.path.join(top, "case", where))
        ev = osmc.events(top + ".log")
        good = osmc.snapshot(top)
        shutil.rmtree(top)
        col = Collector()
        col.runs += 1
        col.count("file operations", len(ev))
        col.expect(len(ev) > 0, name, "operations", "no file operations are seen")
        for k, (what, path) in enumerate(ev):
            for kind in osmc.kinds(what):
                sc = "%s: operation %d (%s %s) %s" % (name, k, what, path, {"F": "fails", "D": "finds the disk full", "P": "is cut short",
                                                                          "K": "never happens (crash)", "H": "happens half (crash)"}[kind])
                t = tempfile.mkdtemp(dir=scratch)
                try:
                    osmc.put(t, files)
                    rc, text = osmc.execute([exes[prog]] + args, t, lib, at=k, kind=kind, cwd=os.path.join(t, "case", where))
                    now = osmc.snapshot(t)
                    col.runs += 1
                    col.transitions += len(ev)
                    col.states.add(sc)
                    for p, c in before.items():
                        col.expect(now.get(p, "gone") in (c, good[p]), sc, "lost", "%s is neither the old nor the new file: %.200r" % (p, now.get(p, "gone")))
                    if kind not in "KH":
                        col.expect(rc == 0 or reported(rc, text), sc, "signal", "ended with %s: %s" % (rc, text[-300:]))
                        for p in set(now) - set(before) - set(good):
                            col.expect(what == "unlink", sc, "leftover", "%s was left behind" % p)
                        if rc == 0:
                            col.expect(rc0 == 0 and all(now.get(p, "gone") == c for p, c in good.items()), sc, "silent", "exit status 0, but the files are not what they should be")
                        col.count("disturbed: exit %s" % rc)
                finally:
                    shutil.rmtree(t, ignore_errors=True)
        return col
    return [lambda op=op: one(op) for op in ops]


TOOLS = ["normalize_jsons", "move_to_category", "increase_pressure", "change_inflow", "insert_positions", "include_seed_in_boundaryvalues",
         "remove_seed_from_boundaryvalues", "construct_gaspowerconnection", "sum_outflow"]


def run(tier, scratch, find_exe, REPO, VERIF):
    depth = 3 if tier == "thorough" else 2
    base = tempfile.mkdtemp(dir=scratch)
    ops = operations(base, tier == "thorough")
    exes = {t: find_exe(t) for t in TOOLS}
    total = Collector()

    def apply(job):
        path, files, op = job
        col = Collector()
        name, prog, args, where, model = op
        sc = " / ".join(path + (name,))
        want = model(copy.deepcopy(files))
        top = tempfile.mkdtemp(dir=scratch)
        try:
            osmc.put(top, {"case/problem/" + k: v for k, v in files.items()})
            osmc.put(top, {"case/problem/bystander.json": "{}", "case/other.json": "[]"})
            before = osmc.snapshot(top)
            rc, text = tool([exes[prog]] + args, os.path.join(top, "case", where))
            col.runs += 1
            col.transitions += 1
            now = osmc.snapshot(top)
            mine = {"case/problem/" + k for k in files}
            col.expect(set(now) == set(before) and all(now[p] == before[p] for p in before if p not in mine), sc, "others", "other files changed")
            try:
                got = {k: json.loads(now["case/problem/" + k]) for k in files}
                text_now = canonical(got)
            except (KeyError, ValueError, AttributeError, TypeError) as e:
                got, text_now = None, "unreadable: %r" % e
            if want is None:
                col.expect(reported(rc, text), sc, "refused", "must be refused, ended with %s: %s" % (rc, text[-300:]))
                col.expect(text_now == canonical(files), sc, "changed", "files changed although refused: %s" % text_now[:500])
                col.count("refused")
                return col, None
            col.expect(rc == 0, sc, "fails", "ended with %s: %s" % (rc, text[-300:]))
            if got is None or not same(json.loads(text_now), json.loads(canonical(want))):
                wrong = [k for k in files if got is None or not same(json.loads(canonical({k: got[k]})), json.loads(canonical({k: want[k]})))]
                col.bad(sc, "content", "%s instead of %s" % (text_now[:300] if got is None else canonical({k: got[k] for k in wrong})[:1200],
                                                             canonical({k: want[k] for k in wrong})[:1200]))
                return col, None
            col.checks += 1
            if prog in ("increase_pressure", "normalize_jsons"):
                # what is printed of the state must not depend on the path to it
                flows = [c["data"][1]["values"][1] for c in got["initial.json"]["connections"].get("Shortpipe", [])]
                rc, text = tool([exes["sum_outflow"], "problem/initial.json"], os.path.join(top, "case"))
                col.runs += 1
                if any(isinstance(q, str) for q in flows):
                    col.expect(reported(rc, text), sc, "sum refused", "sum of an outflow that is no number: %s, %r" % (rc, text))
                    return col, (path + (name,), got)
                flows = sum(flows)
                try:
                    col.expect(rc == 0 and math.isclose(float(text.split()[-1]), flows, rel_tol=1e-5, abs_tol=1e-9), sc, "sum", "sum of outflow is %r, not %r" % (text, flows))
                except (ValueError, IndexError):
                    col.bad(sc, "sum", "sum of outflow is %r" % text)
            return col, (path + (name,), got)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    total.merge(osmc.parallel(disturbances(scratch, VERIF, ops, exes)))
    # states of other kinds from which the tools start, and everything reachable from them
    starts = [(("problem",), problem())]
    f = problem()
    f["boundary.json"]["nodes"]["Source"][0]["data"][1]["values"][0] = 31.0
    starts.append((("inflow that changes",), f))
    f = problem()
    f["boundary.json"]["nodes"]["Source"].reverse()
    f["boundary.json"]["nodes"]["Source"][1]["data"][0]["values"][0] = 31.0
    starts.append((("second inflow changes",), f))
    f = problem()
    f["control.json"] = {}
    for n in ("topology.json", "initial.json"):
        f[n]["connections"]["Compressorstation"] = []
    starts.append((("nothing controlled",), f))
    f = problem()
    for n in NAMES:
        for cls in ("nodes", "connections"):
            for l in f[n].get(cls, {}).values():
                l.reverse()
    starts.append((("reversed",), f))
    f = problem()
    f["boundary.json"]["nodes"]["Source"][1]["data"].pop()
    starts.append((("one point of inflow",), f))
    f = problem()
    f["initial.json"]["connections"]["Compressorstation"][0]["data"][1]["values"][0] = "high"
    f["initial.json"]["connections"]["Shortpipe"][0]["data"][1]["values"][1] = "much"
    starts.append((("words for numbers",), f))
    seen = {canonical(f) for _, f in starts}
    level = starts
    with ThreadPoolExecutor(osmc.WORKERS) as pool:
        for d in range(depth):
            nxt = []
            for col, succ in pool.map(apply, [(p, f, op) for p, f in level for op in ops]):
                total.merge(col)
                if succ and canonical(succ[1]) not in seen:
                    seen.add(canonical(succ[1]))
                    nxt.append(succ)
            level = nxt
            total.count("new states at depth %d" % (d + 1), len(nxt))
    total.states = seen
    total.samples = [" / ".join(p) for p, _ in level[:6]]
    return total.result()
