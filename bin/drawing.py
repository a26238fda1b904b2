"""C23: drawings show the network where it is, with the values of the results."""
import itertools
import os
import re
import shutil
import tempfile

import osmc
from osmc import Collector
from restart import tool

POWER = ("PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant")
GASNODES = ("Source", "Sink", "Innode")
GASEDGES = ("Pipe", "Controlvalve", "Compressorstation", "Shortpipe")
NODE = re.compile(r"\\node\[(?P<opt>.*)\]\s*\((?P<id>[^()]*)\)\s*at\s*\((?P<x>[^,()]*),\s*(?P<y>[^()]*)\)\s*\{(?P<label>[^{}]*)\};")
DRAW = re.compile(r"\\draw\[(?P<opt>.*)\]\s*\((?P<a>[^()]*)\)\s*--\s*\((?P<b>[^()]*)\);")
COLOR = re.compile(r"\{rgb:red,(-?\d+);green,(-?\d+);blue,(-?\d+)\}")
TICK = re.compile(r"\\selectfont([^{}]*)\}\}")


def parse(text):
    nodes, draws, legend, scale = [], [], [], []
    for line in text.splitlines():
        m = NODE.match(line.strip())
        if m:
            (legend if m["id"].startswith("myid") else nodes).append(m)
        m = DRAW.match(line.strip())
        if m:
            (scale if m["a"].startswith("myid") else draws).append(m)
    return nodes, draws, legend, scale


def color(low, high, value):
    if high == low:
        return None  # a scale without extent: any colour
    ratio = 2 * (value - low) / (high - low)
    b, r = int(max(0.0, 255 * (1 - ratio))), int(max(0.0, 255 * (ratio - 1)))
    return r, 255 - b - r, b


def near(a, b, size):
    return abs(a - b) <= 2e-5 * size


def same_color(got, want):
    return want is None or all(abs(g - w) <= 2 for g, w in zip(got, want))


def check_drawing(col, sc, text, want_nodes, want_edges, scale, low=None, high=None, node_values=None, edge_values=None):
    nodes, draws, legend, bar = parse(text)
    col.expect("\\begin{tikzpicture}" in text and text.rstrip().endswith("\\end{document}"), sc, "complete", "the drawing is not complete: %s" % text[-100:])
    if not col.expect(sorted(m["id"] for m in nodes) == sorted(want_nodes), sc, "nodes", "drawn nodes are %s" % [m["id"] for m in nodes]):
        return
    xm = sum(p[0] for p in want_nodes.values()) / len(want_nodes)
    ym = sum(p[1] for p in want_nodes.values()) / len(want_nodes)
    size = max(max(abs(p[0] - xm), abs(p[1] - ym)) for p in want_nodes.values()) / scale + 1e-9
    size = max(size, 1e-9 * (abs(xm) + abs(ym)) / scale)
    for m in nodes:
        x, y = (want_nodes[m["id"]][0] - xm) / scale, (want_nodes[m["id"]][1] - ym) / scale
        col.expect(near(float(m["x"]), x, size) and near(float(m["y"]), y, size), sc, "position", "%s is drawn at %s, %s instead of %s, %s" % (
            m["id"], m["x"], m["y"], x, y))
        if node_values:
            c = COLOR.search(m["opt"])
            want = color(low, high, node_values[m["id"]])
            col.expect(c and same_color(tuple(map(int, c.groups())), want), sc, "color", "%s has the colour %s instead of %s" % (m["id"], m["opt"], want))
    col.expect(sorted((m["a"], m["b"]) for m in draws) == sorted(e[:2] for e in want_edges), sc, "edges", "drawn edges are %s" % [(m["a"], m["b"]) for m in draws])
    if edge_values is not None:
        left = [(e[0], e[1], color(low, high, edge_values[e[2]])) for e in want_edges]
        for m in draws:
            c = COLOR.search(m["opt"])
            got = tuple(map(int, c.groups())) if c else None
            hit = [e for e in left if e[:2] == (m["a"], m["b"]) and got and same_color(got, e[2])]
            if col.expect(hit, sc, "color", "the edge from %s to %s has the colour %s, expected %s" % (m["a"], m["b"], got, left)):
                left.remove(hit[0])
    if low is not None:
        ticks = [float(t) for t in TICK.findall(text)]
        want = [low + i * 0.1 * (high - low) for i in range(11)]
        tol = 6e-4 + 1e-5 * max(abs(low), abs(high))
        col.expect(len(ticks) == 11 and all(abs(a - b) <= tol for a, b in zip(ticks, want)), sc, "legend", "the legend says %s instead of %s" % (ticks, want))
        cs = [tuple(map(int, COLOR.search(m["opt"]).groups())) for m in bar]
        if high > low:
            col.expect(len(cs) == 100 and all(same_color(c, color(0, 100, i)) for i, c in enumerate(cs)), sc, "legend", "the legend's colours are %s" % cs[:3])


def execute(col, sc, find_exe, scratch, prog, topology, results, scale):
    """the drawing a tool makes, or None"""
    top = tempfile.mkdtemp(dir=scratch)
    try:
        files = {"topology.json": topology}
        if results is not None:
            files["states.json"] = results
        osmc.put(top, files)
        before = osmc.snapshot(top)
        rc, text = tool([find_exe(prog), "topology.json"] + ([] if results is None else ["states.json"]) + ["net.tex"] + ([] if scale is None else [repr(scale)]), top)
        col.runs += 1
        col.transitions += 1
        col.states.add(sc)
        if not col.samples:
            col.samples.append(sc)
        after = osmc.snapshot(top)
        col.expect({k: v for k, v in after.items() if k != "net.tex"} == before, sc, "others", "changed other files")
        if not col.expect(rc == 0 and "net.tex" in after, sc, "failed", "ended with %s: %s" % (rc, text[-300:])):
            return None
        with open(os.path.join(top, "net.tex")) as fh:
            return fh.read()
    finally:
        shutil.rmtree(top, ignore_errors=True)


def network(section, types, edgetypes, ends, places, ids):
    t = {"nodes": {}, "connections": {}}
    pos = {}
    for i, typ in enumerate(types):
        x, y = places[i % len(places)]
        t["nodes"].setdefault(typ, []).append({"id": ids[i], "x": x, "y": y})
        pos[ids[i]] = (x, y, typ)
    edges = []
    for k, (typ, (a, b)) in enumerate(zip(edgetypes, ends)):
        eid = "e%d" % ((k * 7 + 3) % 10)
        t["connections"].setdefault(typ, []).append({"id": eid, "from": ids[a], "to": ids[b]})
        edges.append((ids[a], ids[b], eid, typ))
    return t, pos, edges


PLACES = [[(0, 0), (1, 0), (0.5, -2.25), (3, 3)], [(1000000.5, -20), (1000400.25, 80), (999000, 33.5), (1000100, 0)], [(-1.5, 2), (-1.5, 2), (7, 1e-3), (0, 1e3)],
          [(-500, 3), (-3, 3), (-40, 3), (-77, 3)]]
IDS = [["node_b", "node_a", "node_d", "node_c"], ["n10", "n9", "z", "node_1"]]


def graph_case(prog, types_all, edge_all, scale, find_exe, scratch, thorough):
    def job_for(n, ids, places):
        def job():
            col = Collector()
            pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
            for types in itertools.product(types_all, repeat=n):
                for m in range(0, n + 1):
                    sets = itertools.combinations_with_replacement(pairs, m) if n < 3 or m < 2 else [[pairs[0], pairs[3]], [pairs[1], pairs[5], pairs[2]][:m]]
                    for q, ends in enumerate(sets):
                        edgetypes = [edge_all[(q + k + len(types[0])) % len(edge_all)] for k in range(m)]
                        t, pos, edges = network("", types, edgetypes, ends, places, ids)
                        sc = "%s of %s with %s, scale %s" % (prog, pos, edges, scale)
                        text = execute(col, sc, find_exe, scratch, prog, t, None, scale)
                        if text is None:
                            continue
                        check_drawing(col, sc, text, pos, edges, 10 if scale is None else scale)
            return col
        return job
    return [job_for(n, ids, places) for n in (1, 2, 3) for ids in IDS for places in (PLACES if thorough or n < 3 else PLACES[:2])]


def heat_power(types, values, places, scale, ids, find_exe, scratch):
    """values[node][time] of the active power"""
    def job(vals):
        col = Collector()
        for v in vals:
            t, pos, edges = network("", types, ["Transmissionline"] * (len(types) - 1), [(i, i + 1) for i in range(len(types) - 1)], places, ids)
            res = {"nodes": {}, "connections": {}}
            for i, typ in enumerate(types):
                res["nodes"].setdefault(typ, []).append({"id": ids[i], "data": [{"time": 10.0 * k, "P": x, "Q": 100.0 - x, "V": 1.0, "phi": 500.0} for k, x in enumerate(v[i])]})
            sc = "draw_heatmap_power of %s with %s scale %s" % (pos, v, scale)
            text = execute(col, sc, find_exe, scratch, "draw_heatmap_power", t, res, scale)
            if text is None:
                continue
            everything = [x for row in v for x in row]
            check_drawing(col, sc, text, pos, edges, scale, min(everything), max(everything), {ids[i]: max(row) for i, row in enumerate(v)})
        return col
    return lambda: job(values)


def heat_gas(types, edgetypes, ends, values, places, scale, ids, find_exe, scratch):
    """values[edge][time][point] of the pressure"""
    def job():
        col = Collector()
        for v in values:
            t, pos, edges = network("", types, edgetypes, ends, places, ids)
            res = {"nodes": {}, "connections": {}}
            for (a, b, eid, typ), series in zip(edges, v):
                res["connections"].setdefault(typ, []).append({"id": eid, "data": [
                    {"time": 60.0 * k, "pressure": [{"x": 100.0 * j, "value": x} for j, x in enumerate(row)],
                     "flow": [{"x": 100.0 * j, "value": 1000.0 + x} for j, x in enumerate(row)]} for k, row in enumerate(series)]})
            sc = "draw_heatmap_gaslib of %s, %s with %s scale %s" % (pos, edges, v, scale)
            text = execute(col, sc, find_exe, scratch, "draw_heatmap_gaslib", t, res, scale)
            if text is None:
                continue
            shown = [(e, series) for e, series in zip(edges, v) if e[3] != "Shortpipe"]
            tops = [max(row) for _, series in shown for row in series]
            check_drawing(col, sc, text, {i: p for i, p in pos.items() if p[2] != "Sink"}, [e for e, _ in shown], 10 if scale is None else scale,
                          min(tops), max(tops), None, {e[2]: max(max(row) for row in series) for e, series in shown})
        return col
    return job


def unwritable(find_exe, scratch):
    def job():
        col = Collector()
        power, _, _ = network("", ("PQnode", "Vphinode"), ["Transmissionline"], [(0, 1)], PLACES[0], IDS[0])
        presults = {"nodes": {"PQnode": [{"id": "node_b", "data": [{"time": 0, "P": 1.0}]}], "Vphinode": [{"id": "node_a", "data": [{"time": 0, "P": 2.0}]}]}, "connections": {}}
        gas, _, _ = network("", ("Source", "Innode"), ["Pipe"], [(0, 1)], PLACES[0], IDS[0])
        gresults = {"nodes": {}, "connections": {"Pipe": [{"id": "e3", "data": [{"time": 0, "pressure": [{"x": 0, "value": 1.0}, {"x": 1, "value": 2.0}]}]}]}}
        for prog, t, r in (("draw_power_graph", power, None), ("draw_gaslib_graph", gas, None), ("draw_heatmap_power", power, presults), ("draw_heatmap_gaslib", gas, gresults)):
            for how in ("directory", "full"):
                top = tempfile.mkdtemp(dir=scratch)
                try:
                    osmc.put(top, {"topology.json": t, "states.json": r})
                    target = os.path.join(top, "net.tex")
                    os.mkdir(target) if how == "directory" else os.symlink("/dev/full", target)
                    rc, text = tool([find_exe(prog), "topology.json"] + (["states.json"] if r else []) + ["net.tex", "1"], top)
                    col.runs += 1
                    col.transitions += 1
                    col.states.add(prog + how)
                    col.expect(isinstance(rc, int) and rc > 0, "%s onto a %s" % (prog, how), "unwritten", "reports %s though nothing could be written: %s" % (rc, text[-300:]))
                finally:
                    shutil.rmtree(top, ignore_errors=True)
        return col
    return job


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def run(tier, scratch, find_exe, REPO, VERIF):
    thorough = tier == "thorough"
    jobs = []
    for scale in ([None, 2.5] + ([0.01] if thorough else [])):
        jobs += graph_case("draw_gaslib_graph", GASNODES, GASEDGES, scale, find_exe, scratch, thorough)
    for scale in ([2.5] + ([0.01, 300.0] if thorough else [])):
        jobs += graph_case("draw_power_graph", POWER if thorough else POWER[:4], ("Transmissionline",), scale, find_exe, scratch, thorough)
    alphabet = [-2.0, 0.5, 3.0]
    for n, steps in ((1, 2), (2, 1), (2, 2), (3, 1)) + (((3, 2),) if thorough else ()):
        everything = [tuple(tuple(v[i * steps:(i + 1) * steps]) for i in range(n)) for v in itertools.product(alphabet, repeat=n * steps)]
        for types in itertools.product(POWER, repeat=n):
            if n == 3 and not thorough and len(set(types)) == 3 and types != tuple(sorted(types)):
                continue
            if steps == 2 and n == 3 and len(set(types)) == 3:
                continue
            k = len(jobs)
            for part in chunks(everything, 27 if not thorough else 243):
                jobs.append(heat_power(types, part, PLACES[k % 4], (2.5, 40.0)[k % 2], IDS[k % 2], find_exe, scratch))
    points = {"Pipe": 3, "Controlvalve": 2, "Compressorstation": 2, "Shortpipe": 2}
    alphabet = [20.0, 61.5, 80.0]
    for edgetypes in [(a,) for a in GASEDGES[:3]] + list(itertools.product(GASEDGES, repeat=2)):
        if all(e == "Shortpipe" for e in edgetypes):
            continue
        for steps in (1, 2):
            count = sum(points[e] for e in edgetypes)
            if count * steps > 6:
                # all profiles at one time, the other time one level below, equal and above
                one = itertools.product(alphabet, repeat=count)
                everything = [[prof, [x + d for x in prof]] for prof in one for d in (-30.0, 0.0, 45.5)] if steps == 2 else [[prof] for prof in one]
            else:
                everything = [[v[k * count:(k + 1) * count] for k in range(steps)] for v in itertools.product(alphabet, repeat=count * steps)]
            if not thorough:
                everything = [e for k, e in enumerate(everything) if len(everything) <= 81 or all(x in (20.0, 80.0, -10.0, 65.5, 125.5, 50.0) for row in e for x in row)]
            cases = []
            for e in everything:
                v, at = [], 0
                for typ in edgetypes:
                    v.append([list(row[at:at + points[typ]]) for row in e])
                    at += points[typ]
                cases.append(v)
            k = len(jobs)
            types, ends = (("Source", "Innode"), [(0, 1)]) if len(edgetypes) == 1 else \
                ((("Source", "Innode", "Innode"), [(0, 1), (2, 1)]), (("Innode", "Source", "Sink"), [(0, 1), (1, 0)]), (("Innode", "Source"), [(1, 0), (1, 0)]))[k % 3]
            for part in chunks(cases, 60):
                jobs.append(heat_gas(types, edgetypes, ends, part, PLACES[k % 4], (None, 2.5)[k % 2], IDS[0], find_exe, scratch))
    jobs.append(unwritable(find_exe, scratch))
    return osmc.parallel(jobs).result()
