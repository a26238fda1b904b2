"""C16: several instances at the same time, under every interleaving of their operations on shared files."""
import itertools, json, os, re, select, shutil, signal, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait
import faults, osmc
from osmc import Collector


class Instance:
    """one process that asks before every file operation"""
    def __init__(self, cmd, root, lib, clock):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        os.set_inheritable(w1, True)
        os.set_inheritable(r2, True)
        env = {"PATH": os.environ["PATH"], "LC_ALL": "C", "TZ": "UTC", "LD_PRELOAD": lib, "VS_ROOT": root, "VS_CLOCK": str(clock),
               "VS_REQ": str(w1), "VS_ACK": str(r2)}
        self.out = tempfile.TemporaryFile()
        self.p = subprocess.Popen(cmd, cwd=root, env=env, stdout=self.out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                  pass_fds=(w1, r2))
        os.close(w1)
        os.close(r2)
        self.req, self.ack, self.buf, self.ops, self.pending, self.rc = r1, w2, b"", [], None, None

    def advance(self, visible):
        """let it run to its next visible operation or its end"""
        if self.pending is not None:
            self.pending = None
            os.write(self.ack, b"x")
        while True:
            while b"\n" not in self.buf:
                ready, _, _ = select.select([self.req], [], [], 60)
                data = os.read(self.req, 65536) if ready else None
                if data is None:
                    self.p.kill()
                    self.p.wait()
                    self.rc = "hang"
                    return
                if not data:
                    self.rc = self.p.wait()
                    return
                self.buf += data
            line, self.buf = self.buf.split(b"\n", 1)
            op, path = line.decode().split(" ", 2)[1:]
            self.ops.append((op, path))
            if visible(op, path):
                self.pending = (op, path)
                return
            os.write(self.ack, b"x")

    def kill(self):
        self.p.kill()
        self.p.wait()
        self.rc = "killed"

    def text(self):
        self.out.seek(0)
        return self.out.read().decode("utf8", "replace")

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        for fd in (self.req, self.ack):
            os.close(fd)
        self.out.close()


def one(cmds, files, lib, scratch, visible, prefix, kills):
    """one schedule: follow the prefix, then never switch without need.
    returns choices, the alternatives at each point, the instances' ends and the files"""
    root = tempfile.mkdtemp(dir=scratch)
    inst = []
    try:
        osmc.put(root, files)
        for c in cmds:
            inst.append(Instance(c, root, lib, 1700000000000))
        choices, options, trace = [], [], []
        for i in inst:
            i.advance(visible)
        last = None
        while True:
            enabled = [i for i, x in enumerate(inst) if x.rc is None]
            if not enabled:
                break
            alts = [(i, "go") for i in enabled]
            if kills and not any(k == "kill" for _, k in choices) and len(enabled) > 1:
                alts += [(i, "kill") for i in enabled]
            n = len(choices)
            if n < len(prefix):
                c = prefix[n]
                if c not in alts:
                    raise RuntimeError("schedule does not repeat: %s not in %s" % (c, alts))
            else:
                c = (last if last in enabled else enabled[0], "go")
            options.append((alts, last if last in enabled else None))
            choices.append(c)
            x = inst[c[0]]
            trace.append("%d:%s %s" % (c[0], "killed before" if c[1] == "kill" else "", " ".join(x.pending)))
            if c[1] == "kill":
                x.kill()
            else:
                x.advance(visible)
                last = c[0]
        now = osmc.snapshot(root)
        return choices, options, [(x.rc, x.text(), x.ops) for x in inst], now, trace
    finally:
        for x in inst:
            x.close()
        shutil.rmtree(root, ignore_errors=True)


def preemptions(choices, options):
    return sum(1 for c, (_, last) in zip(choices, options) if c[1] == "go" and last is not None and c[0] != last)


def explore(name, cmds, files, lib, scratch, visible, judge, bound, kills, total, limit=200000):
    """every schedule with at most `bound` preemptions (None: every schedule)"""
    before = dict_snapshot(files)
    lock = threading.Lock()

    def work(prefix):
        col = Collector()
        choices, options, ends, now, trace = one(cmds, files, lib, scratch, visible, prefix, kills)
        col.runs += 1
        col.transitions += len(choices)
        for i in range(1, len(trace) + 1):
            col.states.add((name, hash(tuple(trace[:i]))))
        sc = "%s: %s" % (name, "; ".join(trace))
        for rc, text, _ in ends:
            col.expect(rc != "hang", sc, "hang", "an instance does not end")
        judge(col, sc, ends, before, now, any(k == "kill" for _, k in choices))
        more = []
        for i in range(len(prefix), len(choices)):
            for a in options[i][0]:
                if a == choices[i]:
                    continue
                p = choices[:i] + [a]
                if bound is None or preemptions(p, options[:i + 1]) <= bound:
                    more.append(p)
        if not col.samples and len(prefix) % 3 == 1:
            col.samples.append(sc[:400])
        return col, more

    with ThreadPoolExecutor(osmc.WORKERS) as pool:
        pending = {pool.submit(work, [])}
        n = 0
        while pending:
            done, pending = wait(pending, return_when=FIRST_COMPLETED)
            for d in done:
                col, more = d.result()
                total.merge(col)
                n += 1
                for m in more:
                    pending.add(pool.submit(work, m))
            if n > limit or len(total.violations) > 50:
                for p in pending:
                    p.cancel()
                if n > limit:
                    raise RuntimeError("too many schedules in " + name)
                break
    total.count("schedules of " + name, n)


def dict_snapshot(files):
    snap = {}
    for p, c in files.items():
        d = os.path.dirname(p)
        while d:
            snap[d] = None
            d = os.path.dirname(d)
        snap[p] = None if c is None else c if isinstance(c, bytes) else (json.dumps(c, indent=1) if isinstance(c, (dict, list)) else c).encode()
    return snap


def unchanged(col, sc, before, now):
    for p, c in before.items():
        col.expect(now.get(p, "gone") == c, sc, "overwritten", "%s was changed or removed" % p)


def run(tier, scratch, find_exe, REPO, VERIF):
    lib = osmc.shim(scratch, VERIF)
    grazer, tool = find_exe("grazer"), find_exe("d_output")
    deep = tier == "thorough"
    total = Collector()

    # ---- runs in the same grazer directory
    small = dict(osmc.chain(steps=1, delta_x=10000), **faults.OLD)
    top = tempfile.mkdtemp(dir=scratch)
    osmc.put(top, small)
    rc, text = osmc.execute([grazer, "run", "case"], top, lib)
    alone = osmc.snapshot(top)
    good = faults.below(alone, (faults.the_output(alone, dict_snapshot(small)) or ["?"])[0])
    total.expect(rc == 0 and "states.json" in good, "alone", "alone", "an undisturbed run ends with %s: %s" % (rc, text[-500:]))

    def top_of_output(op, path):
        parts = path.strip("/").split("/")
        return len(parts) in (2, 3) and parts[1] == "output" and not (op == "stat" and len(parts) == 3)

    def judge_runs(col, sc, ends, before, now, killed):
        unchanged(col, sc, before, now)
        mine = []
        for rc, text, ops in ends:
            mine.append({p for op, p in ops if op in ("create", "write", "mkdir", "rename", "unlink") and p.count("/") > 3 and "/output/" in p})
            if rc == "killed":
                continue
            col.expect(rc == 0, sc, "failed", "an instance ends with %s: %s" % (rc, text[-300:]))
        for a, b in itertools.combinations(mine, 2):
            col.expect(not a & b, sc, "shared", "two instances write %s" % sorted(a & b)[:2])
        finished = sum(1 for rc, _, _ in ends if rc == 0)
        complete = [d for d in faults.the_output(now, before) if faults.below(now, d) == good]
        col.expect(len(complete) >= finished, sc, "incomplete", "%d instances finished, but %d complete outputs: %s"
                   % (finished, len(complete), faults.the_output(now, before)))

    for n, bound, kills in ((2, None, True), (3, 2, False)) + (((3, None, False), (3, 3, True), (4, 2, False)) if deep else ()):
        explore("%d runs, %s preemptions%s" % (n, "all" if bound is None else "up to %d" % bound, ", one killed" if kills else ""),
                [[grazer, "run", "case"]] * n, small, lib, scratch, top_of_output, judge_runs, bound, kills, total)
    # with an output directory already there
    for taken in ((0, 1, 19) if not deep else range(0, 21)):
        have = dict(small)
        have["case/output"] = None
        for k in range(taken):
            have["case/output/2023.11.14_22:13:20.%s/mine" % k] = "mine"
            have["case/output/2023.11.14_22:13:20.%03d/mine" % k] = "mine"

        def judge_taken(col, sc, ends, before, now, killed, taken=taken):
            unchanged(col, sc, before, now)
            if taken + len(ends) <= 20:
                judge_runs(col, sc, ends, before, now, killed)
            else:
                for rc, text, _ in ends:
                    col.expect(rc in (0, 1), sc, "failed", "an instance ends with %s: %s" % (rc, text[-300:]))
                complete = [d for d in faults.the_output(now, before) if faults.below(now, d) == good]
                col.expect(len(complete) >= sum(1 for rc, _, _ in ends if rc == 0), sc, "incomplete", "not every successful instance has its output")
        explore("2 runs, %d names taken" % taken, [[grazer, "run", "case"]] * 2, have, lib, scratch, top_of_output, judge_taken,
                1 if not deep else 2, False, total)

    # ---- inserting keys while others insert keys, or run
    data = {p: json.dumps(c, indent=2) for p, c in small.items() if p.startswith("case/problem/")}
    one_schema = dict(data, **{"case/schemas/topology_schema.json": "{}"})
    top = tempfile.mkdtemp(dir=scratch)
    osmc.put(top, one_schema)
    osmc.execute([grazer, "schema", "insert-key", "case"], top, lib)
    keyed = osmc.snapshot(top)

    def on_topology(op, path):
        return path.startswith("/case/problem/topology.json") and op not in ("close",)

    def judge_insert(col, sc, ends, before, now, killed):
        for p, c in before.items():
            if p != "case/problem/topology.json":
                col.expect(now.get(p, "gone") == c, sc, "overwritten", "%s was changed or removed" % p)
        for cmd, (rc, text, _) in zip(judge_insert.cmds, ends):
            if rc != "killed":
                col.expect(rc == 0, sc, "failed", "an instance ends with %s: %s" % (rc, text[-300:]))
        ok = (keyed["case/problem/topology.json"],)
        if killed:
            ok += (before["case/problem/topology.json"],)
        col.expect(now.get("case/problem/topology.json", b"gone") in ok, sc, "lost", "topology.json is %.100r" % now.get("case/problem/topology.json"))
        if not killed:
            extra = [p for p in now if p not in before and not p.startswith("case/output")]
            col.expect(not extra, sc, "leftover", "left behind: %s" % extra)

    ins = [grazer, "schema", "insert-key", "case"]
    for cmds, bound, kills in (([ins, ins], 2, True), ([ins, [grazer, "run", "case"]], 2 if deep else 1, False)) + (
            (([ins, ins], None, False), ([ins, ins, ins], 2, False)) if deep else ()):
        judge_insert.cmds = cmds
        explore("%s, %s preemptions%s" % (" and ".join(" ".join(c[1:-1]) for c in cmds), "all" if bound is None else "up to %d" % bound,
                                          ", one killed" if kills else ""),
                cmds, one_schema, lib, scratch, on_topology, judge_insert, bound, kills, total)

    # ---- the functions that hand out names
    def any_op(op, path):
        return op != "close"

    def judge_names(col, sc, ends, before, now, killed):
        unchanged(col, sc, before, now)
        names = []
        for rc, text, _ in ends:
            if rc == "killed":
                continue
            if col.expect(rc == 0, sc, "failed", "an instance ends with %s: %s" % (rc, text[-300:])):
                names.append(text.strip().split("\n")[-1])
        col.expect(len(set(names)) == len(names), sc, "shared", "the same name was given twice: %s" % names)
        for x in names:
            rel = os.path.relpath(x, os.path.commonpath([x, "/"])) if os.path.isabs(x) else x
            col.expect(any(p.endswith(os.path.basename(x)) for p in now), sc, "missing", "%s does not exist" % rel)

    for what in ("file", "directory", "outputfile"):
        for n, bound, kills in ((2, None, True), (3, 3, False)) + (((3, None, False), (4, 3, False)) if deep else ()):
            explore("%d times a new %s, %s preemptions%s" % (n, what, "all" if bound is None else "up to %d" % bound, ", one killed" if kills else ""),
                    [[tool, what]] * n, {"out/mine.json": "mine", "mine.json": "mine"}, lib, scratch, any_op, judge_names, bound, kills, total)

    # ---- names tell the time, to the millisecond, and sort by it
    times = [0, 1, 9, 10, 99, 100, 999, 1000, 59999, 60000, 86399999, 86400000, 951782399999, 951782400000, 1709164799999, 1709164800000,
             1735689599999, 1735689600000, 1700000000000, 1700000000007, 1700000000070, 1700000000700] + [1700000000000 + 37 * k for k in range(30)]

    def stamp(ms, tick=None):
        root = tempfile.mkdtemp(dir=scratch)
        rc, text = osmc.execute([tool, "stamp"], root, lib, clock=ms, tick=tick)
        shutil.rmtree(root)
        return ms, rc, text.strip()

    with ThreadPoolExecutor(osmc.WORKERS) as pool:
        stamps = list(pool.map(stamp, sorted(set(times))))
    for ms, rc, text in stamps:
        total.runs += 1
        want = time.strftime("%Y.%m.%d_%H:%M:%S", time.gmtime(ms // 1000)) + ".%03d" % (ms % 1000)
        total.expect(rc == 0 and text == want, "time stamp of %d ms" % ms, "stamp", "%s instead of %s" % (text, want))
    # while it is made, time goes on: it must still be one of the times at which the clock was read
    moving = [(ms, tick) for ms in (1700000000000, 1700000000600, 1700000000999, 1735689599998, 1735689599500) for tick in (1, 2, 450, 1000, 86400000)]
    with ThreadPoolExecutor(osmc.WORKERS) as pool:
        stamps = list(pool.map(lambda m: stamp(*m), moving))
    for (ms, tick), (_, rc, text) in zip(moving, stamps):
        total.runs += 1
        want = [time.strftime("%Y.%m.%d_%H:%M:%S", time.gmtime(m // 1000)) + ".%03d" % (m % 1000) for m in range(ms, ms + 200 * tick, tick)]
        total.expect(rc == 0 and text in want, "time stamp at %d ms and later, in steps of %d ms" % (ms, tick), "stamp", "%s instead of %s or later" % (text, want[0]))
    return total.result()
