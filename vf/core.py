"""Solver-based checks: compile /repo's current sources with goto-cc, decide
harness assertions with CBMC, replay every counterexample natively."""
import concurrent.futures, json, os, re, resource, shutil, signal, subprocess
import sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VF_JOBS", "8"))
MEM = 10 << 30

BASE_FLAGS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
              "--div-by-zero-check", "--unwinding-assertions",
              "--no-malloc-may-fail", "--drop-unused-functions",
              "--object-bits", "10"]
CFLAGS = ["-std=gnu11", "-w", "-DHAVE_CONFIG_H", "-D_exit=vf__exit",
          "-I" + REPO, "-I" + REPO + "/wizard", "-I" + HARN,
          "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-D__NO_CTYPE"]
SAN = ["-g", "-O1", "-fno-inline", "-fsanitize=address,bounds,null,integer-divide-by-zero",
       "-fno-sanitize-recover=all", "-ffunction-sections", "-fdata-sections",
       "--param", "asan-globals=0", "-Wl,--gc-sections", "-fno-omit-frame-pointer"]


class Query:
    """One solver query (a harness function over a set of sources)."""

    def __init__(self, name, harness, func, src=(), defs=(), unwind=None,
                 unwindset=(), flags=(), solver=None, tier="quick", timeout=120,
                 bounds="", stubs="", functions=(), splice=None, optional=False,
                 variants=(), expect_reach=True, replay_timeout=20,
                 needs_replay=True, only=None, env=(), libs=(), drop_flags=(),
                 san=None, group=None, hdefs=(), fields=1024):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def variant(self, **kw):
        d = {k: v for k, v in self.__dict__.items()}
        d.update(kw)
        q = Query(d.pop("name"), d.pop("harness"), d.pop("func"))
        q.__dict__.update(d)
        q.variants = ()
        for k in ("name", "harness", "func"):
            if k in kw:
                setattr(q, k, kw[k])
            else:
                setattr(q, k, getattr(self, k))
        return q


class EncodeError(Exception):
    pass


def splice_source(text, names):
    """Make the named functions of a C source replaceable: their definitions
    are renamed vf_orig_<name> and lose internal linkage; calls then go to the
    definition the harness supplies."""
    for n in names:
        pat = re.compile(r"((?:^|\n)(?:static\s+)?(?:inline\s+)?[A-Za-z_][^;{}()#]*?)\b%s(\s*\([^;{}]*?\)\s*\{)" % re.escape(n))
        m = pat.search(text)
        if not m:
            raise EncodeError("definition of %s not found" % n)
        # forward declarations
        head = re.sub(r"\bstatic\b|\binline\b", "", m.group(1))
        text = text[:m.start()] + head + "vf_orig_" + n + m.group(2) + text[m.end():]
        fwd = re.compile(r"(\n)((?:static|inline)\s[^;{}()#]*?)(\b%s\s*\([^;{}]*?\)\s*;)" % re.escape(n))
        text = fwd.sub(lambda k: k.group(1) + re.sub(r"\bstatic\b|\binline\b", "", k.group(2)) + k.group(3), text)
    return text


def run(cmd, timeout, cwd=None, env=None, mem=MEM, out=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=cwd, env=env, preexec_fn=pre, stdin=subprocess.DEVNULL)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, (o or b"").decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, (o or b"").decode("utf8", "replace"), time.time() - t


class Work:
    def __init__(self, pid):
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.lock = threading.Lock()
        self.objects = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def prepare(work, q, tag):
    """Spliced copies of sources (if any); returns list of source paths and
    extra include flags."""
    d = os.path.join(work.dir, tag)
    os.makedirs(d, exist_ok=True)
    srcs, inc = [], []
    splice = dict(q.splice or {})
    if splice:
        inc = ["-I" + d]
    for f, names in splice.items():
        p = os.path.join(REPO, f)
        if callable(names):
            text = names(open(p, errors="replace").read())
        else:
            text = splice_source(open(p, errors="replace").read(), names)
        o = os.path.join(d, f)
        os.makedirs(os.path.dirname(o), exist_ok=True)
        open(o, "w").write(text)
    for f in q.src:
        p = os.path.join(d, f) if f in splice else os.path.join(REPO, f)
        if not os.path.exists(p):
            raise EncodeError("missing source " + f)
        srcs.append(p)
    return d, srcs, inc


def cached_object(work, base, f):
    k = (tuple(base), f)
    with work.lock:
        if k not in work.objects:
            work.objects[k] = [threading.Lock(), None]
        e = work.objects[k]
    with e[0]:
        if e[1] is None:
            fd, o = tempfile.mkstemp(suffix=".o", dir=work.dir)
            os.close(fd)
            rc, out, t = run(base + ["-c", f, "-o", o], 120)
            if rc != 0:
                raise EncodeError("goto-cc: " + out[-1500:])
            e[1] = o
    return e[1]


def compile_goto(work, q, tag, more=(), out="a.goto"):
    d, srcs, inc = prepare(work, q, tag)
    gb = os.path.join(d, out)
    base = ["goto-cc", "-DVF_CBMC"] + inc + CFLAGS + ["-D" + x for x in q.defs]
    if q.hdefs:
        # definitions for the harness only: the sources are compiled once
        srcs = [cached_object(work, base, f) for f in srcs]
    cmd = base + list(more) + ["-D" + x for x in q.hdefs] + [os.path.join(HARN, q.harness)] + srcs + ["-o", gb]
    rc, o, t = run(cmd, 120)
    if rc != 0:
        raise EncodeError("goto-cc: " + o[-1500:])
    return gb, d


def compile_native(work, q, tag):
    d, srcs, inc = prepare(work, q, tag)
    exe = os.path.join(d, "native")
    cmd = (["gcc"] + inc + CFLAGS + (SAN if q.san is None else list(q.san)) +
           ["-D" + x for x in q.defs] + ["-D" + x for x in q.hdefs] +
           ["-DVF_MAIN=" + q.func, os.path.join(HARN, q.harness),
            os.path.join(HARN, "vf_native.c")] + srcs +
           ["-o", exe, "-lm", "-lpthread"] + list(q.libs))
    rc, o, t = run(cmd, 180, mem=0)
    if rc != 0:
        raise EncodeError("gcc: " + o[-2500:])
    return exe


def cbmc_cmd(q, gb, extra=()):
    cmd = ["cbmc", gb, "--function", q.func]
    cmd += [f for f in BASE_FLAGS if f not in q.drop_flags] + list(q.flags)
    if q.unwind:
        cmd += ["--unwind", str(q.unwind)]
    if q.unwindset:
        u = expand_unwindset(q, gb)
        if u:
            cmd += ["--unwindset", ",".join(u)]
    if q.solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    elif q.solver and q.solver != "sweep":
        cmd += ["--sat-solver", q.solver]
    return cmd + list(extra)


_loops = {}
_funcs = {}


def expand_unwindset(q, gb):
    """'Function:N' applies to every loop of the function that exists now;
    'Function.k:N' to one loop."""
    if gb not in _loops:
        rc, o, t = run(["cbmc", gb, "--function", q.func, "--drop-unused-functions", "--show-loops", "--json-ui"], 60)
        names = []
        for m in parse_json(o) or []:
            for l in m.get("loops", []):
                names.append(l["name"])
        _loops[gb] = names
    out = []
    for e in q.unwindset:
        n, c = e.rsplit(":", 1)
        for l in _loops[gb]:
            if l == n or (re.match(r"\d+$", l.rsplit(".", 1)[-1]) and l.rsplit(".", 1)[0] == n):
                out.append(l + ":" + c)
    return out


def parse_json(o):
    i = o.find("[")
    if i < 0:
        return None
    try:
        return json.loads(o[i:])
    except Exception:
        return None


def decide(q, gb, extra=(), timeout=None):
    """Run CBMC; returns dict(status, results, solver_s, wall_s)."""
    rc, o, t = run(cbmc_cmd(q, gb, ["--json-ui", "--verbosity", "8"] + list(extra)), timeout or q.timeout)
    r = dict(wall_s=round(t, 2), solver_s=0.0, results=[], status="error", msg="")
    if rc is None:
        r["status"] = "timeout"
        return r
    j = parse_json(o)
    if j is None:
        r["msg"] = o[-800:]
        return r
    vccs = None
    for m in j:
        if "messageText" in m:
            x = re.match(r"Runtime Solver: ([0-9.e+-]+)s", m["messageText"])
            if x:
                r["solver_s"] += float(x.group(1))
            x = re.match(r"(\d+) variables, (\d+) clauses", m["messageText"])
            if x:
                r["variables"], r["clauses"] = int(x.group(1)), int(x.group(2))
            if m.get("messageType") == "ERROR":
                r["msg"] += m["messageText"][:500] + "; "
        if "result" in m:
            r["results"] = m["result"]
    if rc in (0, 10) and r["results"]:
        r["status"] = "done"
    r["solver_s"] = round(r["solver_s"], 3)
    return r


def sweep(work, q, gb, tag, timeout):
    """Decide an equivalence query: CBMC writes the formula of all assertions
    but the reachability witnesses, vf/sweep.py refutes it by rewriting and
    SMT sweeping; the witnesses go to CBMC's SAT solver.  Result as decide(),
    with 'inputs' when a vector satisfying the formula turned up."""
    r = dict(wall_s=0.0, solver_s=0.0, results=[], status="error", msg="")
    t0 = time.time()
    g2, d = compile_goto(work, q, tag, ["-DVF_SWEEP"], "s.goto")
    o2 = os.path.join(d, "o.smt2")
    rc, o, t = run(cbmc_cmd(q, g2, ["--smt2", "--z3", "--slice-formula", "--max-field-sensitivity-array-size",
                                    str(q.fields), "--verbosity", "8", "--outfile", o2]), timeout)
    if rc is None:
        r["status"] = "timeout"
        return r
    ok = "VERIFICATION SUCCESSFUL" in o or re.search(r"Generated \d+ VCC\(s\), 0 remaining", o) is not None
    if ok or not os.path.exists(o2):
        if not ok:
            r["msg"] = o[-600:]
            return r
        r["sweep"] = "discharged by simplification"
    else:
        left = timeout - (time.time() - t0)
        rc, o, t = run(["python3-vt", os.path.join(VERIF, "vf", "sweep.py"), o2, str(max(5, left - 5))], max(10, left))
        os.unlink(o2)
        m = re.search(r"VERDICT (\w+) ([^\n]*)", o)
        if not m:
            r["status"], r["msg"] = ("timeout", "") if rc is None else ("error", o[-600:])
            return r
        r["sweep"] = m.group(2)
        r["solver_s"] = round(float(re.search(r"solver=([0-9.]+)", o).group(1)), 3)
        ok = m.group(1) == "unsat"
        c = re.search(r"^CEX ?([^\n]*)", o, re.M)
        if not ok and c:
            r["inputs"] = [int(x) for x in c.group(1).split()]
    if ok:
        r["results"] = [dict(property="sweep", description="all assertions", status="SUCCESS")]
        rc, o, t = run(["cbmc", gb, "--function", q.func, "--drop-unused-functions", "--show-properties", "--json-ui"], 60)
        props = []
        for m in parse_json(o) or []:
            props += [p["name"] for p in m.get("properties", []) if p.get("description", "").startswith("VF_REACH")]
        if props:
            x = []
            for p in props:
                x += ["--property", p]
            e = decide(q.variant(solver=None, drop_flags=("--bounds-check", "--pointer-check", "--unwinding-assertions")), gb,
                       x + ["--slice-formula"], timeout=timeout)
            if e["status"] == "done":
                r["results"] += [p for p in e["results"] if is_reach(p)]
                r["solver_s"] += e["solver_s"]
        r["status"] = "done"
    elif "inputs" in r:
        r["results"] = [dict(property="sweep", description="assertion of the equivalence query", status="FAILURE")]
        r["status"] = "done"
    else:
        r["status"], r["msg"] = "undecided", "sweep: " + o[-700:]
    r["wall_s"] = round(time.time() - t0, 2)
    return r


def list_functions(q, gb):
    """Functions of the repository reachable from the harness (measured on
    the goto binary)."""
    rc, o, t = run(["cbmc", gb, "--function", q.func, "--drop-unused-functions",
                    "--show-goto-functions", "--json-ui"], 60)
    j = parse_json(o) or []
    fs = set()
    for m in j:
        for f in m.get("functions", []):
            if not f.get("isBodyAvailable"):
                continue
            n = f.get("name", "")
            file = ""
            for i in f.get("instructions", []):
                file = i.get("sourceLocation", {}).get("file", "") or file
                if file:
                    break
            if "/wizard/" in file or "/utilities/" in file or file.startswith(("wizard/", "utilities/")):
                if "harness" not in file:
                    fs.add(n)
    return sorted(fs)


def trace_inputs(res):
    """Input values, in order, of the first failing property with a trace."""
    for p in res:
        if p.get("status") == "FAILURE" and "trace" in p:
            vals = []
            for s in p["trace"]:
                if s.get("stepType") == "input" and s.get("inputID") == "vf":
                    for v in s["values"]:
                        b = v.get("binary")
                        if b is not None:
                            vals.append(int(b, 2))
                        else:
                            vals.append(int(re.sub(r"[a-zA-Z]+$", "", str(v.get("data", "0")))))
            return vals
    return None


def replay(work, q, exe, vals, label):
    f = os.path.join(work.dir, "in-%s-%d.txt" % (label, threading.get_ident() % 100000))
    open(f, "w").write("\n".join(map(str, vals)) + "\n")
    env = dict(os.environ, VF_INPUT=f,
               ASAN_OPTIONS="detect_leaks=0:exitcode=98:allocator_may_return_null=1:malloc_fill_byte=165:max_malloc_fill_size=65536:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0")
    for e in q.env:
        k, v = e.split("=", 1)
        env[k] = v
    sc = os.path.join(work.dir, "run-%s" % label)
    os.makedirs(sc, exist_ok=True)
    rc, o, t = run([exe], q.replay_timeout, cwd=sc, env=env, mem=0)
    if rc is None:
        return "hang", o[-2000:]
    if rc == 0:
        return "pass", o[-2000:]
    if rc == 77:
        return "unmet", o[-2000:]
    if rc == 98:
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", o)
        return "sanitizer", (m.group(1) if m else "") + "\n" + o[-3000:]
    if rc == 99:
        m = re.search(r"VF-FAIL [^\n]*", o)
        return "assertion", m.group(0) if m else o[-2000:]
    if rc < 0:
        return "signal %d" % -rc, o[-2000:]
    return "exit %d" % rc, o[-2000:]


CONFIRM = ("hang", "sanitizer", "assertion")


def short(p):
    return p.get("property", "?") + ": " + p.get("description", "")


def is_reach(p):
    return p.get("description", "").startswith("VF_REACH")


def is_unwind(p):
    return ".unwind." in p.get("property", "") or "recursion" in p.get("property", "")


def run_query(work, q, log, deadline):
    """Decide one query; returns a record for the evidence file."""
    rec = None
    tries = [q] + list(q.variants)
    errs = []
    for k, v in enumerate(tries):
        tag = "%s-%d" % (q.name, k)
        bump = 0
        while True:
            rec = run_one(work, v, tag, log, deadline)
            if rec["status"] == "unwind" and bump < 2 and v.unwind:
                # a loop needs more iterations than before and the longer run
                # is not an endless one: enlarge the bound
                bump += 1
                v = v.variant(unwind=int(v.unwind * 1.5) + 2,
                              unwindset=[re.sub(r":(\d+)$", lambda m: ":%d" % (int(m.group(1)) * 1.5 + 2), x) for x in v.unwindset],
                              timeout=v.timeout * 2)
                continue
            break
        rec["query"] = q.name
        rec["variant"] = k
        if errs:
            rec["earlier_attempts"] = errs
        if rec["status"] in ("holds", "violated"):
            return rec
        errs = errs + ["%s: %s" % (rec["status"], rec.get("note", "")[:300])]
        log("  %s variant %d: %s %s" % (q.name, k, rec["status"], rec.get("note", "")[:1500]))
    return rec


def run_one(work, q, tag, log, deadline):
    rec = dict(status="error", bounds=q.bounds, stubs=q.stubs, unwind=q.unwind,
               functions=list(q.functions), wall_s=0.0, solver_s=0.0)
    try:
        gb, d = compile_goto(work, q, tag)
    except EncodeError as e:
        rec["status"], rec["note"] = "encode", str(e)
        return rec
    left = deadline - time.time()
    if left < 5:
        rec["status"], rec["note"] = "timeout", "check deadline"
        return rec
    k = (q.harness, q.func, tuple(q.src), q.group or (tuple(q.defs), tuple(q.hdefs)))
    if k not in _funcs:
        _funcs[k] = list_functions(q, gb)
    rec["functions"] = _funcs[k]
    if q.solver == "sweep":
        r = sweep(work, q, gb, tag, min(q.timeout, left))
        if "sweep" in r:
            rec["sweep"] = r["sweep"]
        left = deadline - time.time()
        if r["status"] == "undecided" and left > 10:
            # no verdict by sweeping: look for a counterexample by plain SAT
            log("  %s: %s" % (q.name, r["msg"]))
            q = q.variant(solver="cadical")
            r = decide(q, gb, timeout=min(q.timeout, left))
    else:
        r = decide(q, gb, timeout=min(q.timeout, left))
    rec.update({k: r[k] for k in ("wall_s", "solver_s") if k in r})
    for k in ("variables", "clauses"):
        if k in r:
            rec[k] = r[k]
    if r["status"] != "done":
        rec["status"], rec["note"] = r["status"], r.get("msg", "")
        return rec
    res = r["results"]
    reach = [p for p in res if is_reach(p)]
    rec["assertions"] = len(res) - len(reach)
    rec["reach_witnesses"] = sum(p["status"] == "FAILURE" for p in reach)
    fails = [p for p in res if p["status"] == "FAILURE" and not is_reach(p)]
    undec = [p for p in res if p["status"] not in ("FAILURE", "SUCCESS")]
    if undec:
        rec["status"], rec["note"] = "error", "undecided: " + short(undec[0])
    if not fails:
        if undec:
            return rec
        if q.expect_reach and (not reach or any(p["status"] != "FAILURE" for p in reach)):
            rec["status"] = "vacuous"
            rec["note"] = "unreached: " + "; ".join(short(p) for p in reach if p["status"] != "FAILURE")
            return rec
        rec["status"] = "holds"
        return rec
    # counterexample(s): replay natively
    def prio(p):
        d = p.get("property", "")
        return (is_unwind(p), "pointer" in d or "bounds" in d or "array" in d, "precondition" in d)
    fails.sort(key=prio)
    rec["failing"] = [short(p) for p in fails][:12]
    try:
        exe = compile_native(work, q, tag)
    except EncodeError as e:
        rec["status"], rec["note"] = "error", "replay build: " + str(e)
        return rec
    notes = []
    for p in fails[:6]:
        left = deadline - time.time()
        if left < 5:
            notes.append("deadline")
            break
        if "inputs" in r:
            vals = r["inputs"]
        else:
            t = decide(q, gb, ["--trace", "--property", p["property"]], timeout=min(max(2 * q.timeout, 60), left))
            rec["solver_s"] += t["solver_s"]
            rec["wall_s"] = round(rec["wall_s"] + t["wall_s"], 2)
            vals = trace_inputs(t["results"]) if t["status"] == "done" else None
        if vals is None:
            notes.append("no trace for " + short(p))
            continue
        verdict, out = replay(work, q, exe, vals, tag)
        notes.append("%s -> %s: %s" % (short(p), verdict, out.split("\n")[0][:300]))
        ok = verdict in CONFIRM or verdict.startswith("signal") or verdict.startswith("exit")
        if verdict == "hang" and not is_unwind(p):
            ok = True
        if ok:
            rec["status"] = "violated"
            rec["violation"] = dict(property=p["property"], description=p["description"],
                                    location=p.get("sourceLocation", {}), inputs=vals,
                                    replay=verdict, output=out[:3000], harness=q.harness,
                                    func=q.func, defs=list(q.defs) + list(q.hdefs), src=list(q.src))
            rec["note"] = notes[-1]
            return rec
    rec["note"] = "; ".join(notes)
    if any(is_unwind(p) for p in fails):
        rec["status"] = "unwind"
    else:
        rec["status"] = "unconfirmed"
    return rec
