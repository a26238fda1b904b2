"""Runs grazer under fault/shim.c: every file operation numbered, made to fail, cut short or fatal, or ordered by us."""
import itertools, json, os, shutil, signal, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


def shim(scratch, verif):
    out = os.path.join(scratch, "shim.so")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", out, os.path.join(verif, "fault", "shim.c"), "-ldl"], check=True)
    return out


def snapshot(top):
    """relative path -> content (directories: None)"""
    snap = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            snap[os.path.relpath(os.path.join(d, x), top)] = None
        for x in fs:
            p = os.path.join(d, x)
            if not os.path.exists(p):
                snap[os.path.relpath(p, top)] = b"(a link that leads nowhere)"
                continue
            with open(p, "rb") as fh:
                snap[os.path.relpath(p, top)] = fh.read()
    return snap


def put(top, files):
    for name, content in files.items():
        p = os.path.join(top, name)
        if content is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(content, tuple):  # a link
            os.symlink(content[0], p)
            continue
        if isinstance(content, (dict, list)):
            content = json.dumps(content, indent=1)
        with open(p, "wb" if isinstance(content, bytes) else "w") as fh:
            fh.write(content)


def execute(cmd, root, lib, at=None, kind=None, clock=1700000000000, log=None, timeout=60, cwd=None, tick=None):
    env = {"PATH": os.environ["PATH"], "LC_ALL": "C", "TZ": "UTC", "LD_PRELOAD": lib, "VS_ROOT": root, "VS_CLOCK": str(clock)}
    if at is not None:
        env.update(VS_AT=str(at), VS_KIND=kind)
    if tick is not None:
        env["VS_TICK"] = str(tick)
    if log:
        env["VS_LOG"] = log
    try:
        r = subprocess.run(cmd, cwd=cwd or root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode("utf8", "replace")


def events(log):
    with open(log) as fh:
        return [l.rstrip("\n").split(" ", 2)[1:] for l in fh]


# which ways an operation can go wrong
def kinds(op):
    if op == "write":
        return "FDPKH"
    if op in ("create", "mkdir"):
        return "FDK"
    if op == "read":
        return "FPK"
    return "FK"


class Collector:
    def __init__(self):
        self.violations, self.checks, self.runs, self.transitions = [], 0, 0, 0
        self.counters, self.samples, self.states = {}, [], set()

    def bad(self, scenario, key, message, path=None, trace=""):
        self.violations.append({"scenario": scenario, "key": key, "message": message, "path": path or [], "trace": trace[-1500:],
                                "replayed": True, "harness": "python"})

    def expect(self, cond, scenario, key, message, path=None, trace=""):
        self.checks += 1
        if not cond:
            self.bad(scenario, key, message, path, trace)
        return cond

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def merge(self, other):
        self.violations += other.violations
        for k in ("checks", "runs", "transitions"):
            setattr(self, k, getattr(self, k) + getattr(other, k))
        for k, v in other.counters.items():
            self.count(k, v)
        self.samples += other.samples
        self.states |= other.states

    def result(self):
        return {"violations": self.violations, "evaluations": self.runs, "nontrivial": self.runs, "transitions": self.transitions,
                "checks": self.checks, "states": len(self.states), "counters": self.counters, "samples": self.samples[:6]}


def parallel(jobs):
    """jobs: callables returning a Collector"""
    total = Collector()
    with ThreadPoolExecutor(WORKERS) as pool:
        for c in pool.map(lambda j: j(), jobs):
            total.merge(c)
    return total


# ------------------------------------------------------------------ problems
def chain(optimize=False, steps=3, unit_pressure=60.0, upper=1.0, band=(0, 90), newton=50, delta_x=5000, control=0.0, lower=0.0, lower_end=None, upper_end=None,
          extra=None, n=1, constrained=True, start=0, delta=900, control_settings={"desired_delta_t": 900}):
    """source - pipe - compressor - pipe - constrained sink"""
    end = start + 900.0 * steps
    pd = {
        "simulation_settings": {"use_simplified_newton": True, "maximal_number_of_newton_iterations": newton, "tolerance": 1e-8,
                                "retries": 0, "start_time": start, "end_time": end, "desired_delta_t": delta},
        "problem_data": {"defaults": {"Pipe": {"balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme",
                                               "desired_delta_x": delta_x}},
                         "topology_json": "topology.json", "boundary_json": "boundary.json"}}
    if optimize:
        pd["optimize"] = True
        pd["constraint_settings"] = {"evaluate_constraints_every_n": n}
    if optimize or control_settings != {"desired_delta_t": 900}:
        pd["control_settings"] = control_settings
    if control_settings is None:
        del pd["control_settings"]
    if extra:
        pd.update(extra)

    def ts(v, w=None):
        return [{"time": start, "values": v}, {"time": end, "values": v if w is None else w}]

    pipe = {"length": {"unit": "km", "value": 10}, "diameter": {"unit": "mm", "value": 914.4}, "roughness": {"unit": "m", "value": 8e-6}}
    top = {"nodes": {"Source": [{"id": "source", "x": 0, "y": 0}],
                     "Innode": [{"id": "in1", "x": 0, "y": 0}, {"id": "in2", "x": 0, "y": 0}],
                     "ConstraintSink": [{"id": "sink", "x": 0, "y": 0}]},
           "connections": {"Pipe": [dict(pipe, id="p1", **{"from": "source", "to": "in1"}),
                                    dict(pipe, id="p2", **{"from": "in2", "to": "sink"})],
                           "Compressorstation": [{"id": "cs", "from": "in1", "to": "in2"}]}}
    ini = [{"x": 0.0, "values": [unit_pressure, 50.0]}, {"x": 10000.0, "values": [unit_pressure - 0.1, 50.0]}]
    files = {
        "problem_data.json": pd, "topology.json": top,
        "boundary.json": {"nodes": {"Source": [{"id": "source", "data": ts([50.0])}],
                                    "ConstraintSink": [{"id": "sink", "data": ts([50.0], [55.0])}]}},
        "initial.json": {"connections": {"Pipe": [{"id": "p1", "data": ini}, {"id": "p2", "data": ini}],
                                         "Compressorstation": [{"id": "cs", "data": [{"x": 0, "values": [unit_pressure, 50.0]},
                                                                                     {"x": 1, "values": [unit_pressure, 50.0]}]}]}},
        "control.json": {"connections": {"Compressorstation": [{"id": "cs", "data": ts([control])}]}}}
    if optimize:
        files["lower_bounds.json"] = {"connections": {"Compressorstation": [{"id": "cs", "data": ts([lower], None if lower_end is None else [lower_end])}]}}
        files["upper_bounds.json"] = {"connections": {"Compressorstation": [{"id": "cs", "data": ts([upper], None if upper_end is None else [upper_end])}]}}
        for k, name in enumerate(("constraint_lower_bounds.json", "constraint_upper_bounds.json")):
            files[name] = {"nodes": {"ConstraintSink": [{"id": "sink", "data": ts([band[k]])}]}}
    if not constrained:
        for name in ("topology.json", "boundary.json"):
            files[name]["nodes"]["Sink"] = files[name]["nodes"].pop("ConstraintSink")
        for k in set(files) & {"constraint_lower_bounds.json", "constraint_upper_bounds.json"}:
            files[k] = {}
    return {"case/problem/" + k: v for k, v in files.items()}
