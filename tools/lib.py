"""Runs the harness over cases, TLC over what it observed, and reports.

The harness (Rust) runs the real code and reports; TLC decides. Nothing in this file judges.
"""
import hashlib, json, os, re, resource, select, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
OP_TIMEOUT = 30.0


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def src_hash():
    h = hashlib.sha256()
    for root in ("src", "wop/src"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("Cargo.toml", "wop/Cargo.toml"):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(crate, package, quiet=True):
    """Builds a harness crate from /repo's working tree; returns the binary."""
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    mani = os.path.join(VERIF, crate, "Cargo.toml")
    stamp = os.path.join(TARGET, ".src-" + package)
    cur = src_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != cur:
        for p in ("lrp", "wop"):
            subprocess.run(["cargo", "clean", "--offline", "--manifest-path", mani, "-p", p], env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", mani], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        raise ToolError("cannot build " + crate)
    with open(stamp, "w") as f:
        f.write(cur)
    return os.path.join(TARGET, "debug", package)


# ------------------------------------------------------------------ cases

class Case:
    """A grammar and the operations to run on it."""

    def __init__(self, cid, g, ty="str", salt=1):
        self.id, self.g, self.ty, self.salt = cid, g, ty, salt
        self.ops = []       # list of word lists
        self.out = []       # answers, same order

    def op(self, *words):
        self.ops.append([str(w) for w in words])
        self.out.append(None)
        return len(self.ops) - 1

    def text(self, ops):
        L = ["case %s %s %d" % (self.id, self.ty, self.salt), "start " + self.g["start"], "eof " + self.g["eof"]]
        L += ["nt " + a for a in self.g["nts"]]
        L += ["p " + " ".join([l] + list(r)) for l, r in self.g["prods"]]
        L += ["op " + " ".join(o) for o in ops]
        L.append("end")
        return "\n".join(L) + "\n"


def spec_grammar(g):
    cnt = {}
    prods = []
    for l, r in g["prods"]:
        i = cnt.get(l, 0)
        cnt[l] = i + 1
        prods.append({"l": l, "r": list(r), "i": i})
    return {"start": g["start"], "eof": g["eof"], "nts": list(g["nts"]), "prods": prods}


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _drive(binary, cases, op_timeout, max_bad, extra_args):
    """Runs the cases one after another in one process, restarting it after a crash or hang."""
    todo = [(c, k) for c in cases for k in range(len(c.ops))]
    bad = 0
    pos = 0
    while pos < len(todo):
        if bad >= max_bad:
            return
        # text from pos on, grouped by case
        chunks, j = [], pos
        while j < len(todo):
            c = todo[j][0]
            e = j
            while e < len(todo) and todo[e][0] is c:
                e += 1
            chunks.append(c.text([c.ops[todo[q][1]] for q in range(j, e)]))
            j = e
        errf = tempfile.TemporaryFile()
        p = subprocess.Popen([binary] + extra_args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf,
                             preexec_fn=_limits)
        fd = p.stdout.fileno()
        data = "".join(chunks).encode()

        def feed():
            try:
                p.stdin.write(data)
                p.stdin.close()
            except OSError:
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        buf = b""
        why = None
        deadline = time.time() + op_timeout
        while True:
            left = deadline - time.time()
            if left <= 0:
                why = "hang: no answer within %d s" % op_timeout
                break
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            ch = os.read(fd, 1 << 16)
            if not ch:
                break
            buf += ch
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                c, k = todo[pos]
                rec = json.loads(line)
                if rec["case"] != c.id:
                    raise ToolError("harness answered for %s instead of %s" % (rec["case"], c.id))
                if "panic" in rec:
                    if str(rec["panic"]).startswith("bad "):
                        raise ToolError("harness: " + rec["panic"])
                    rec = {"bad": "panic: " + rec["panic"][:300]}
                c.out[k] = rec
                pos += 1
                deadline = time.time() + op_timeout
        p.kill()
        rc = p.wait()
        th.join(5)
        if pos < len(todo):
            if why is None:
                errf.seek(0)
                msg = errf.read()[-300:].decode(errors="replace").replace("\n", " ")
                if "bad line" in msg or "unfinished case" in msg:
                    raise ToolError(msg)
                why = "crash: exit status %s %s" % (rc, msg)
            c, k = todo[pos]
            c.out[k] = {"bad": why}
            bad += 1
            pos += 1


def run_cases(binary, cases, op_timeout=OP_TIMEOUT, max_bad=3, extra_args=()):
    n = min(JOBS, max(1, len(cases)))
    groups = [cases[i::n] for i in range(n)]
    errs = []

    def work(g):
        try:
            _drive(binary, g, op_timeout, max_bad, list(extra_args))
        except Exception as e:      # noqa
            errs.append(e)
    ths = [threading.Thread(target=work, args=(g,)) for g in groups]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise errs[0] if isinstance(errs[0], ToolError) else ToolError(repr(errs[0]))


# ------------------------------------------------------------------ TLC

STATE_RE = re.compile(r"(\d+) states generated.*?(\d+) distinct states found")


class TlcResult:
    def __init__(self):
        self.fails = []       # (case, clause, detail)
        self.generated = 0
        self.distinct = 0
        self.errors = []
        self.timeout = False
        self.prints = []
        self.coverage = {}


MAX_FAILS = 40


def tlc_one(module, cfg_text, workdir, data, name, timeout, heap="3g", workers=1, extra=(), env_extra=None, res=None, cont=True):
    res = res if res is not None else TlcResult()
    os.makedirs(workdir, exist_ok=True)
    cfg = os.path.join(workdir, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = os.path.join(workdir, name + ".meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    env = dict(os.environ)
    if data:
        env["DATA"] = data
    env.update(env_extra or {})
    tmp = os.path.join(workdir, name + ".tmp")
    os.makedirs(tmp, exist_ok=True)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cp = JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + tmp, "-cp", cp, "tlc2.TLC",
           "-config", cfg, "-metadir", meta, "-workers", str(workers), *(["-continue"] if cont else []), "-noGenerateSpecTE",
           "-checkpoint", "0", *extra, os.path.join(SPEC, module + ".tla")]
    outp = os.path.join(workdir, name + ".out")
    with open(outp, "w") as f:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=workdir, text=True, errors="replace")
        timer = threading.Timer(timeout, lambda: (setattr(res, "timeout", True), p.kill()))
        timer.start()
        killed = False
        nf = 0
        size = 0
        for line in p.stdout:
            size += len(line)
            if size < 20_000_000:
                f.write(line)
            if '"FAIL|' in line or line.startswith("FAIL|"):
                s = line.strip().strip('"')
                parts = s.split("|", 3)
                if len(parts) == 4:
                    key = (parts[1], parts[2], parts[3])
                    if key not in res.fails:
                        res.fails.append(key)
                if not (len(parts) == 4 and any(is_known(k, parts[1], parts[2]) for k in KNOWN)):
                    nf += 1
                if nf >= MAX_FAILS:
                    killed = True
                    p.kill()
                    break
            elif line.startswith('"OUT|') or line.startswith("OUT|"):
                res.prints.append(line.strip().strip('"')[4:])
            m = STATE_RE.search(line)
            if m and "Progress" not in line:
                res.generated, res.distinct = int(m.group(1)), int(m.group(2))
        p.stdout.close()
        rc = p.wait()
        timer.cancel()
    res.rc = rc
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    if killed or res.timeout:
        return res
    if rc not in (0, 12):
        tail = open(outp, errors="replace").read()
        i = tail.find("Error:")
        res.errors.append("TLC %s exit %d: %s" % (name, rc, (tail[i:i + 1500] if i >= 0 else tail[-1500:])))
    elif rc == 12 and not res.fails:
        tail = open(outp, errors="replace").read()
        i = tail.find("Error:")
        res.fails.append(("?", "invariant", tail[i:i + 600].replace("\n", " ")))
    return res


def cfg_of(invariants=(), properties=(), constants=None, spec="Spec", more=""):
    L = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if invariants:
        L.append("INVARIANTS " + " ".join(invariants))
    if properties:
        L.append("PROPERTIES " + " ".join(properties))
    for k, v in (constants or {}).items():
        L.append("CONSTANT %s = %s" % (k, v))
    if more:
        L.append(more)
    return "\n".join(L) + "\n"


def tlc_shards(module, cfg, records, workdir, timeout, shards=None, heap="3g", weight=None):
    """One TLC per shard of the records, all at the same time."""
    os.makedirs(workdir, exist_ok=True)
    n = max(1, min(shards or JOBS, len(records)))
    groups = [[] for _ in range(n)]
    if weight:
        loads = [0.0] * n
        for r in sorted(records, key=weight, reverse=True):
            i = loads.index(min(loads))
            groups[i].append(r)
            loads[i] += weight(r)
    else:
        for i, r in enumerate(records):
            groups[i % n].append(r)
    results = [TlcResult() for _ in range(n)]

    def work(i):
        p = os.path.join(workdir, "%s-%d.ndjson" % (module, i))
        with open(p, "w") as f:
            for r in groups[i]:
                f.write(json.dumps(r) + "\n")
        tlc_one(module, cfg, workdir, p, "%s-%d" % (module, i), timeout, heap=heap, res=results[i])
    ths = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    tot = TlcResult()
    for r in results:
        tot.fails += r.fails
        tot.generated += r.generated
        tot.distinct += r.distinct
        tot.errors += r.errors
        tot.prints += r.prints
        tot.timeout |= r.timeout
    return tot


# ------------------------------------------------------------------ reporting

KNOWN = []      # known findings of the property being checked


def is_known(k, case, clause):
    return re.fullmatch(k[0], case) and re.fullmatch(k[1], clause)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) case=(\S+) clause=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


class Run:
    """One run of one check."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        KNOWN[:] = known_findings(pid)
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.fails = []          # (stage, case, clause, detail)
        self.records = {}        # case id -> record
        self.samples = []
        self.notes = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def conf(self, module, invariants, records, timeout=None, weight=None, traces=None, properties=()):
        """Conformance: TLC over observed records."""
        timeout = timeout or self.pick(600, 6000)
        t = time.time()
        for r in records:
            self.records[r["id"]] = r
        res = tlc_shards(module, cfg_of(invariants, properties), records, os.path.join(self.work, module), timeout, weight=weight)
        self.take(res, module, data=True)
        self.traces += traces if traces is not None else len(records)
        log("  %s: %d records, %d states, %.1fs" % (module, len(records), res.distinct, time.time() - t))
        if records and not self.samples:
            self.samples.append(json.dumps(records[len(records) // 3])[:1500])
        return res

    def take(self, res, stage, data=False):
        self.states += res.distinct
        self.transitions += res.generated
        for c, cl, d in res.fails:
            self.fails.append((stage, c, cl, d))
        if res.timeout:
            raise ToolError("TLC ran out of time in " + stage)
        if res.errors:
            # What the code answered is outside anything the specification gives a meaning to. The
            # data is deterministic, so on a tree that conforms this does not happen.
            if data and all(re.search(r"exit 7[567]\b", e) for e in res.errors):
                self.fails += [(stage, "?", "meaningless-answer", e[:600].replace("\n", " ")) for e in res.errors]
                return
            for e in res.errors:
                log(e)
            if not self.fails:
                raise ToolError("TLC failed in " + stage)

    def design(self, module, invariants=(), properties=(), constants=None, more="", data=None, name=None, workers=None, expect=None, timeout=None, heap="8g"):
        """Model checking of the specification itself (no implementation involved). With expect, the model is
        a wrong one on purpose, and that invariant has to be found violated: a test of the model."""
        t = time.time()
        name = name or module
        res = tlc_one(module, cfg_of(invariants, properties, constants, "Spec", more), os.path.join(self.work, "mc"), data,
                      name, timeout or self.pick(600, 6000), heap=heap, workers=workers or JOBS, cont=False)
        if expect:
            text = open(os.path.join(self.work, "mc", name + ".out"), errors="replace").read()
            if "Invariant %s is violated" % expect not in text:
                raise ToolError("%s does not violate %s, which it should" % (name, expect))
        else:
            self.take(res, name)
        self.notes.setdefault("design_models", []).append(
            {"module": module, "name": name, "distinct_states": res.distinct, "generated": res.generated,
             "invariants": list(invariants), "properties": list(properties), **({"violated_as_expected": expect} if expect else {})})
        log("  %s: %d distinct states, %.1fs" % (name, res.distinct, time.time() - t))
        return res

    def finish(self):
        known = known_findings(self.pid)
        live, seen = [], set()
        for f in self.fails:
            k = [x for x in known if is_known(x, f[1], f[2])]
            if k:
                seen.add(k[0])
            else:
                live.append(f)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k[2]))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples[:4] or ["(none)"], **self.notes},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(live),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        code = 0
        if live:
            code = 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            stage, case, clause, detail = live[0]
            rec = self.records.get(case) or self.records.get(case.split("/")[0])
            path = os.path.join(d, "%s.json" % self.pid)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "stage": stage, "case": case, "clause": clause, "detail": detail,
                           "all": [list(x) for x in live[:40]], "record": rec}, f, indent=1)
            for stage, case, clause, detail in live[:8]:
                print("  %s %s %s: %s" % (stage, case, clause, detail[:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        shutil.rmtree(self.work, ignore_errors=True)
        return code
