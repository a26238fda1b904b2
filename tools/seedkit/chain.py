import json, os, subprocess, sys


def put(top, files):
    for name, content in files.items():
        p = os.path.join(top, name)
        if content is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(content, (dict, list)):
            content = json.dumps(content, indent=1)
        with open(p, "wb" if isinstance(content, bytes) else "w") as fh:
            fh.write(content)


def chain(optimize=False, steps=3, unit_pressure=60.0, upper=1.0, band=(0, 90), newton=50, delta_x=5000, control=0.0, lower=0.0,
          extra=None, n=1):
    """source - pipe - compressor - pipe - constrained sink"""
    end = 900.0 * steps
    pd = {
        "simulation_settings": {"use_simplified_newton": True, "maximal_number_of_newton_iterations": newton, "tolerance": 1e-8,
                                "retries": 0, "start_time": 0, "end_time": end, "desired_delta_t": 900},
        "problem_data": {"defaults": {"Pipe": {"balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme",
                                               "desired_delta_x": delta_x}},
                         "topology_json": "topology.json", "boundary_json": "boundary.json"}}
    if optimize:
        pd["optimize"] = True
        pd["constraint_settings"] = {"evaluate_constraints_every_n": n}
        pd["control_settings"] = {"desired_delta_t": 900}
    if extra:
        pd.update(extra)

    def ts(v, w=None):
        return [{"time": 0, "values": v}, {"time": end, "values": v if w is None else w}]

    pipe = {"length": {"unit": "km", "value": 10}, "diameter": {"unit": "mm", "value": 914.4}, "roughness": {"unit": "m", "value": 8e-6}}
    top = {"nodes": {"Source": [{"id": "source", "x": 0, "y": 0}],
                     "Innode": [{"id": "in1", "x": 0, "y": 0}, {"id": "in2", "x": 0, "y": 0}],
                     "ConstraintSink": [{"id": "sink", "x": 0, "y": 0}]},
           "connections": {"Pipe": [dict(pipe, id="p1", **{"from": "source", "to": "in1"}),
                                    dict(pipe, id="p2", **{"from": "in2", "to": "sink"})],
                           "Compressorstation": [{"id": "cs", "from": "in1", "to": "in2"}]}}
    ini = [{"x": 0.0, "values": [unit_pressure, 50.0]}, {"x": 10000.0, "values": [unit_pressure - 0.1, 50.0]}]
    files = {
        "problem_data.json": pd, "topology.json": top,
        "boundary.json": {"nodes": {"Source": [{"id": "source", "data": ts([50.0])}],
                                    "ConstraintSink": [{"id": "sink", "data": ts([50.0], [55.0])}]}},
        "initial.json": {"connections": {"Pipe": [{"id": "p1", "data": ini}, {"id": "p2", "data": ini}],
                                         "Compressorstation": [{"id": "cs", "data": [{"x": 0, "values": [unit_pressure, 50.0]},
                                                                                     {"x": 1, "values": [unit_pressure, 50.0]}]}]}},
        "control.json": {"connections": {"Compressorstation": [{"id": "cs", "data": ts([control])}]}}}
    if optimize:
        files["lower_bounds.json"] = {"connections": {"Compressorstation": [{"id": "cs", "data": ts([lower])}]}}
        files["upper_bounds.json"] = {"connections": {"Compressorstation": [{"id": "cs", "data": ts([upper])}]}}
        for k, name in enumerate(("constraint_lower_bounds.json", "constraint_upper_bounds.json")):
            files[name] = {"nodes": {"ConstraintSink": [{"id": "sink", "data": ts([band[k]])}]}}
    return {"case/problem/" + k: v for k, v in files.items()}
