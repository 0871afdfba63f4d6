#!/usr/bin/env python3
"""check.py Cxx [--thorough]: decides one property on /repo's current working tree.

1. the extractor takes the functions under contract out of /repo/src, splices the contracts in;
2. Verus discharges every obligation of the functions the property depends on;
3. a bounded search (labelled bounded, never counted as proved) runs the real crate against an
   executable specification; it stands in for functions outside the verifier's reach and looks
   for a concrete failing input when an obligation fails.
"""
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
EV = os.path.join(V, "evidence")
T0 = time.time()
CARGO_ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    CARGO_ENV.pop(k, None)


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def sh(cmd, timeout=None, **kw):
    """Runs a command in a process group of its own; on a timeout the whole group ends."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def build():
    """Builds the extractor and the oracle (the latter links /repo's current tree)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ps = []
        for name in ("extractor", "oracle"):
            src = os.path.join(V, name)
            if name == "oracle" and REPO != "/repo":
                # development only: check a scratch copy of the repository
                src = os.path.join(BUILD, "oracle-src")
                shutil.rmtree(src, ignore_errors=True)
                shutil.copytree(os.path.join(V, name), src)
                f = os.path.join(src, "Cargo.toml")
                t = open(f).read().replace('path = "/repo"', 'path = "%s"' % REPO)
                open(f, "w").write(t)
            env = dict(CARGO_ENV, CARGO_TARGET_DIR=os.path.join(BUILD, name + ("" if REPO == "/repo" else "-dev")))
            ps.append((name, subprocess.Popen(
                ["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", os.path.join(src, "Cargo.toml")],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for name, p in ps:
            out, _ = p.communicate()
            if p.returncode != 0:
                die("building %s failed:\n%s" % (name, out[-4000:]))
    d = "" if REPO == "/repo" else "-dev"
    return (os.path.join(BUILD, "extractor" + d, "release", "extractor"),
            os.path.join(BUILD, "oracle" + d, "release", "oracle"))


# ---------------------------------------------------------------- verification

VERIFY_MSGS = re.compile(
    r"not satisfied|assertion failed|might not be allowed|possible (arithmetic|bit shift|division)|"
    r"could not prove termination|simplifies to false|failed to prove|unable to prove|"
    r"recommendation not met|possible .*overflow|split|may not be|cannot (prove|show)|"
    r"unreached|panic|out of bounds|assert_by_compute|assert_bitvector", re.I)


class Verdict:
    def __init__(self):
        self.failed = {}      # fn/lemma -> list of messages
        self.undecided = {}   # fn -> reason
        self.proved = []
        self.obligations = 0
        self.smt_ms = 0
        self.functions = []
        self.trusted = []
        self.output = ""
        self.cmd = ""
        self.closure = []


# method names of core types: followed only inside the caller's own module
COMMON = set("""len is_empty next as_str as_bytes fmt from into get iter find rfind split_at clone write_str write_char default
new eq cmp partial_cmp hash as_ref deref borrow to_owned parse take map and_then all any position starts_with ends_with
strip_prefix strip_suffix unwrap expect is_some is_none is_ok is_err push push_str chars bytes first last min max""".split())


def closure(rep, roots):
    """Functions reachable from the roots over paths and method names in bodies (an over-approximation by name)."""
    key = lambda r: r["module"] + "::" + r["path"]
    free, assoc, seen, todo = {}, {}, {}, []
    for r in rep:
        segs = r["path"].split("::")
        names = {segs[-1].split("/")[-1]} | ({r["gen"].split("::")[-1]} if r["gen"] else set())
        for n in names:
            (assoc if len(segs) > 1 and "/" not in segs[-1] else free).setdefault(n, []).append(r)
        for pat in roots:
            if key(r) == pat or (pat.endswith("*") and key(r).startswith(pat[:-1])):
                todo.append(r)
    types = {r["path"].split("::")[0].split("/")[-1] for r in rep if "::" in r["path"]}
    while todo:
        r = todo.pop()
        if key(r) in seen:
            continue
        seen[key(r)] = r
        for c in r["calls"]:
            n = c.split("::")[-1].lstrip(".")
            q = c.split("::")[0] if "::" in c else ""
            if c.startswith("."):
                todo += [x for x in assoc.get(n, []) if n not in COMMON or x["module"] == r["module"]]
            elif q[:1].isupper():
                same = r["path"].split("::")[0].split("/")[-1] if q == "Self" else q
                if same in types:
                    todo += [x for x in assoc.get(n, []) if x["path"].split("::")[0].split("/")[-1] == same]
                elif n not in COMMON:
                    todo += assoc.get(n, [])
            else:
                todo += free.get(n, []) + ([] if q else [x for x in assoc.get(n, []) if x["module"] == r["module"]])
    return seen


def regions(path):
    """Line number -> function key, and line number -> module, of the generated file."""
    fn, mod, cur, mods = {}, {}, None, []
    for i, l in enumerate(open(path), 1):
        if l.startswith("// @FN "):
            cur = l.split()[2]
        elif l.startswith("// @END "):
            cur = None
        elif l.startswith("pub mod ") and l.rstrip().endswith("{"):
            mods.append(l.split()[2])
        elif l.startswith("} // mod "):
            mods.pop()
        if cur:
            fn[i] = cur
        mod[i] = "::".join(mods)
    return fn, mod


def lemma_modules(text, rep, mods):
    """The modules of specifications and lemmas only that the given modules refer to, directly or not."""
    body, cur = {}, []
    for l in text.split("\n"):
        if l.startswith("pub mod ") and l.rstrip().endswith("{"):
            cur.append(l.split()[2])
        elif l.startswith("} // mod "):
            cur.pop()
        elif cur:
            body.setdefault("::".join(cur), []).append(l)
    code = {r["module"] for r in rep}
    found, todo = set(), list(mods)
    while todo:
        for r in re.findall(r"crate::(\w+)::", "\n".join(body.get(todo.pop(), []))):
            if r in body and r not in code and r not in found:
                found.add(r)
                todo.append(r)
    return found


LEMMA_NAME = re.compile(r"\b(?:proof|spec|axiom|exec)?\s*fn\s+(\w+)")


def enclosing_lemma(lines, n):
    for i in range(n - 1, max(0, n - 400), -1):
        m = LEMMA_NAME.search(lines[i])
        if m:
            return m.group(1)
    return "?"


def verify(ext, prop, cfg, feats, tier, budget):
    """One extraction and proof run; loops until the generated crate compiles."""
    v = Verdict()
    work = tempfile.mkdtemp(prefix="verif-", dir=BUILD)
    g, gj = os.path.join(work, "g.rs"), os.path.join(work, "g.json")
    stubs, drops = [], []
    rlimit = 30
    tries = 0
    seeds = 0
    acc = {}          # module -> its queries, from the run that last covered it
    only = None       # a retry covers the modules with failures only
    always = None     # the obligations that failed under every solver seed so far
    try:
        while True:
            tries += 1
            cmd = [ext, os.path.join(REPO, "src"), os.path.join(V, "contracts"), g, gj]
            for f in feats:
                cmd += ["--feature", f]
            for s in stubs:
                cmd += ["--stub", s]
            for s in drops:
                cmd += ["--drop", s]
            p = sh(cmd)
            if p.returncode != 0:
                die("extractor failed: " + p.stderr[-2000:])
            rep = json.load(open(gj))
            fns = {r["module"] + "::" + r["path"]: r for r in rep}
            clo = closure(rep, cfg["roots"])
            v.closure = sorted(clo)
            for k, r in clo.items():
                if r["status"] in ("mismatch", "lost") and k not in v.undecided:
                    v.undecided[k] = r["status"] + ": " + r["reason"]
            mods = sorted({r["module"] for r in clo.values()} | set(cfg.get("lemmas", [])))
            text = open(g).read()
            mods = [m for m in mods if ("pub mod %s {" % m.split("::")[-1]) in text]
            mods = sorted(set(mods) | lemma_modules(text, rep, mods))
            if only is None:
                acc = {}
            vcmd = ["verus", g, "--crate-type=lib", "--rlimit", str(rlimit), "--output-json", "--time-expanded",
                    "--error-format=json", "--multiple-errors", "3", "--num-threads", "8"]
            for m in mods:
                if only is None or m in only:
                    vcmd += ["--verify-only-module", m]
            if seeds:
                vcmd += ["--smt-option", "smt.random_seed=%d" % seeds]
            try:
                p = sh(vcmd, cwd=work, timeout=max(60, budget - (time.time() - T0)))
            except subprocess.TimeoutExpired:
                v.undecided["*"] = "verifier ran out of time"
                break
            if only is None:
                v.cmd = "verus g.rs " + " ".join(vcmd[2:])
            v.output = p.stderr
            fnreg, modreg = regions(g)
            lines = text.split("\n")
            diags = []
            for l in p.stderr.splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and d.get("spans"):
                    diags.append(d)
            try:
                js = json.loads(p.stdout)
            except ValueError:
                js = {}
            res = js.get("verification-results", {})
            smt = js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times")
            bad_compile, bad_proof, rl, touched = [], [], [], set()
            for d in diags:
                spans = [s for s in d["spans"] if s["is_primary"]] + [s for s in d["spans"] if not s["is_primary"]]
                where = None
                for s in spans:  # the obligation is raised inside a body: prefer a span inside a function
                    if s.get("file_name", "").endswith("g.rs") and s["line_start"] in fnreg:
                        where = fnreg[s["line_start"]]
                        break
                # a failed precondition has its primary span at the call, the clause elsewhere
                prim = [s for s in d["spans"] if s["is_primary"] and s.get("file_name", "").endswith("g.rs")]
                if prim and prim[0]["line_start"] in fnreg:
                    where = fnreg[prim[0]["line_start"]]
                if where is None and prim:
                    n = prim[0]["line_start"]
                    where = "%s::lemma %s" % (modreg.get(n, "?"), enclosing_lemma(lines, n))
                if prim:
                    touched.add(modreg.get(prim[0]["line_start"], ""))
                item = (where, d["message"], d.get("rendered", ""))
                if "rlimit" in d["message"] or "resource limit" in d["message"].lower():
                    rl.append(item)
                elif d.get("code") is None and VERIFY_MSGS.search(d["message"]) and (
                        smt is not None or "simplifies to false" in d["message"]):
                    bad_proof.append(item)
                else:
                    bad_compile.append(item)
            if p.returncode != 0 and not diags:
                # solver or verifier crash without a span
                if tries < 3:
                    continue
                v.undecided["*"] = "verifier ended abnormally: " + (p.stderr[-300:] or p.stdout[-300:])
                break
            if bad_compile:
                progress = False
                for w, m, r in bad_compile:
                    if w in fns and w not in stubs:
                        stubs.append(w)
                        progress = True
                        v.undecided[w] = "not in the verifier's language as spliced: " + m
                    elif w in fns and w not in drops:
                        drops.append(w)
                        progress = True
                        v.undecided[w] = "contract does not fit the signature: " + m
                if progress and tries < 40:
                    continue
                v.undecided["*"] = "generated crate rejected: " + bad_compile[0][1]
                v.output = "\n".join(r for _, _, r in bad_compile)
                break
            if smt is None and bad_proof:
                # by(compute) failures end the run early: record them, set the functions aside, go on
                progress = False
                for w, m, r in bad_proof:
                    v.failed.setdefault(w, []).append((m, r))
                    if w in fns and w not in stubs:
                        stubs.append(w)
                        progress = True
                if progress:
                    continue
                break
            for mt in smt or []:
                acc[mt["module"]] = mt["function-breakdown"]
            if rl and rlimit < 100:
                rlimit = 120
                only = touched & set(mods) or None
                continue
            for w, m, r in rl:
                v.undecided[w] = "solver resource limit: " + m
            always = {w for w, _, _ in bad_proof if always is None or w in always}
            if always and seeds < 2:
                # an unstable query is not a violation: the failure has to survive other solver seeds
                seeds += 1
                only = touched & set(mods) or None
                continue
            for w, m, r in bad_proof:
                if w in always:
                    v.failed.setdefault(w, []).append((m, r))
            # account
            bad = set(v.failed) | set(v.undecided)
            for mod in mods:
                for f in acc.get(mod, []):
                    v.obligations += 1
                    v.smt_ms += f["time-micros"] / 1000.0
                    v.functions.append({"function": f["function"].split("::", 1)[1], "mode": f["mode:"],
                                        "ms": round(f["time-micros"] / 1000.0, 1), "discharged": f["success"]})
            v.discharged = sum(1 for f in v.functions if f["discharged"])
            break
        # keep only failures this property depends on
        rel = {}
        for w, ms in v.failed.items():
            m = (w or "").rsplit("::lemma ", 1)
            if w in clo or (len(m) == 2):
                rel[w] = ms
        v.failed = rel
        v.proved = sorted(k for k in clo if k not in v.failed and k not in v.undecided
                          and clo[k]["status"] == "ok" and "*" not in v.undecided)
        v.undecided = {k: r for k, r in v.undecided.items() if k in clo or k == "*"}
        v.where = {k: "%s:%s" % (r["file"], r["line"]) for k, r in clo.items()}
        v.trusted = trusted_scan(open(g).read())
        return v
    finally:
        shutil.rmtree(work, ignore_errors=True)


def trusted_scan(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "assume_specification" in s or re.search(r"\baxiom fn\b|\badmit\(|\bassume\(", s) \
                or "uninterp" in s or "external_type_specification" in s:
            j = i
            while j < min(len(lines), i + 6) and not re.search(r"\bfn\b|\bstruct\b|assume_specification|assume\(|admit\(", lines[j]):
                j += 1
            out.append(re.sub(r"\s+", " ", lines[j].strip())[:160])
    return sorted(set(out))


def probes(ext, prop, cfg, feats, keys):
    """Vacuity: with `assert(false)` at the start of each function every one of them must fail."""
    work = tempfile.mkdtemp(prefix="probe-", dir=BUILD)
    try:
        g, gj = os.path.join(work, "g.rs"), os.path.join(work, "g.json")
        cmd = [ext, os.path.join(REPO, "src"), os.path.join(V, "contracts"), g, gj]
        for f in feats:
            cmd += ["--feature", f]
        for k in keys:
            cmd += ["--probe", k]
        if sh(cmd).returncode != 0:
            return None
        rep = {r["module"] + "::" + r["path"]: r for r in json.load(open(gj))}
        vcmd = ["verus", g, "--crate-type=lib", "--rlimit", "30", "--error-format=json"]
        for m in sorted({rep[k]["module"] for k in keys}):
            vcmd += ["--verify-only-module", m]
        p = sh(vcmd, cwd=work, timeout=600)
        fnreg, _ = regions(g)
        hit = set()
        for l in p.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                for s in d.get("spans", []):
                    if s["line_start"] in fnreg:
                        hit.add(fnreg[s["line_start"]])
        return sorted(k for k in keys if k not in hit)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- bounded search

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Search:
    def __init__(self, oracle, prop, tier, seed, seconds):
        self.a = (oracle, prop, tier, seed, seconds)
        self.p = subprocess.Popen([oracle, "search", prop, "--tier", tier, "--seed", str(seed), "--seconds", str(seconds)],
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limits)

    def result(self):
        oracle, prop, tier, seed, seconds = self.a
        try:
            out, _ = self.p.communicate(timeout=seconds + 90)
            j = json.loads(out)
            return j
        except (subprocess.TimeoutExpired, ValueError):
            self.p.kill()
            self.p.communicate()
        # ended by a signal or stuck: find the case by re-running with traces
        d = tempfile.mkdtemp(prefix="trace-", dir=BUILD)
        try:
            p = subprocess.Popen([oracle, "search", prop, "--tier", tier, "--seed", str(seed), "--seconds", str(seconds), "--trace", d],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits)
            try:
                p.wait(timeout=seconds + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            for f in sorted(os.listdir(d)):
                c = os.path.join(d, f)
                try:
                    r = sh([oracle, "replay", c], timeout=30, preexec_fn=limits)
                    bad = r.returncode != 0
                    msg = r.stdout.strip() or "the process is ended by signal %s" % -r.returncode
                except subprocess.TimeoutExpired:
                    bad, msg = True, "did not finish within 30 s"
                if bad:
                    args = [bytes(int(x, 16) for x in l.split()[1:] if x != "-").decode() for l in open(c) if l.startswith("#case")]
                    return {"evaluations": 1, "distinct_nontrivial": 1, "samples": [], "cut_short": True,
                            "failure": {"sub": args[1], "args": args[2:], "message": msg}}
            die("the bounded search of %s ended abnormally and no case reproduces it" % prop)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                k = json.loads(l[len("known: "):])
                if k["property"] == prop:
                    out.append(k)
    return out


def write_replay(prop, kind, body):
    d = os.path.join(EV, "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s.txt" % (prop, kind))
    open(f, "w").write(body)
    return os.path.relpath(f, V)


def case_lines(prop, f):
    hx = lambda s: " ".join("%02x" % b for b in s.encode()) or "-"
    return "".join("#case %s\n" % hx(s) for s in [prop, f["sub"]] + f["args"])


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EV, exist_ok=True)
    roots = json.load(open(os.path.join(V, "contracts", "roots.json")))
    cfg = roots["properties"][prop]
    cfg["lemmas"] = roots.get("lemmas", []) + cfg.get("lemmas", [])
    ext, oracle = build()
    secs = 200 if tier == "quick" else 400
    s = Search(oracle, prop, tier, seed, secs)
    runs = []
    if cfg["roots"]:
        runs.append(("default features", verify(ext, prop, cfg, [], tier, 500)))
        if cfg.get("memchr"):
            runs.append(("feature memchr", verify(ext, prop, cfg, ["memchr"], tier, 560)))
    r = s.result()
    deep = None
    failed = {}
    for name, v in runs:
        for k, ms in v.failed.items():
            failed.setdefault(k, []).extend((name, m, t) for m, t in ms)
    if failed and not r["failure"]:
        left = 800 - (time.time() - T0)
        if left > 60:
            deep = Search(oracle, prop, "thorough", seed + 1, int(min(180, left - 40))).result()
            if deep["failure"]:
                r = dict(r, failure=deep["failure"])
    unreached = None
    if tier == "thorough" and runs and not failed:
        unreached = probes(ext, prop, cfg, [], runs[0][1].proved)

    violations, known = [], []
    if r["failure"]:
        f = r["failure"]
        hit = [k for k in known_findings(prop) if k["sub"] == f["sub"] and k["args"] == f["args"]]
        if hit:
            known.append(hit[0])
        else:
            body = "# property %s fails on the code in %s\n# case: %s %s\n# observed: %s\n" % (
                prop, REPO, f["sub"], json.dumps(f["args"]), f["message"].replace("\n", " "))
            body += "# replay: cd /verif && ./replay.sh <this file>\n" + case_lines(prop, f)
            for k, ms in failed.items():
                body += "# failed obligation: %s\n" % k
                for n, m, t in ms[:3]:
                    body += "".join("#   %s\n" % x for x in (n + ": " + m + "\n" + t).splitlines())
            path = write_replay(prop, "input", body)
            violations.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("%s: %s %s: %s" % (prop, f["sub"], json.dumps(f["args"]), f["message"]))
            for k in failed:
                print("%s: failed obligation %s: %s" % (prop, k, failed[k][0][1]))
    elif failed:
        body = "# property %s: obligations that hold on the unchanged tree and now fail; no failing input was found\n" % prop
        for k, ms in failed.items():
            w = next((v.where.get(k) for _, v in runs if v.where.get(k)), "")
            body += "# failed obligation: %s (%s)\n" % (k, w)
            for n, m, t in ms:
                body += "".join("#   %s\n" % x for x in (n + ": " + m + "\n" + t).splitlines())
            print("%s: failed obligation %s: %s" % (prop, k, ms[0][1]))
        path = write_replay(prop, "obligation", body)
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for k in {k: 1 for _, v in runs for k in v.undecided}:
        reason = next(v.undecided[k] for _, v in runs if k in v.undecided)
        print("%s: undecided by proof, bounded search stands in: %s (%s)" % (prop, k, reason[:200]))

    cov = {
        "evaluations": r["evaluations"] + (deep["evaluations"] if deep else 0),
        "distinct_nontrivial": r["distinct_nontrivial"],
        "rule": "BOUNDED part, not counted as proved: inputs drawn by oracle/src/gen.rs for this property (exhaustive short strings over a structural alphabet, "
                "grammar-directed and mutated longer ones, seeded); non-trivial: the case satisfies the property's precondition and is compared with the executable specification",
        "samples": r["samples"],
        "bounded_functions": cfg.get("bounded", []),
    }
    if runs:
        cov.update({
            "obligations": sum(v.obligations for _, v in runs),
            "discharged": sum(getattr(v, "discharged", 0) for _, v in runs),
            "checker_cmd": runs[0][1].cmd,
            "trusted_base": runs[0][1].trusted,
            "back_end": "Verus (Z3)",
            "functions_under_contract": {n: v.closure for n, v in runs},
            "functions_proved": {n: len(v.proved) for n, v in runs},
            "undecided": {n: v.undecided for n, v in runs},
            "solver_ms": round(sum(v.smt_ms for _, v in runs), 1),
            "queries": runs[0][1].functions,
            "failed": {k: [m for _, m, _ in ms] for k, ms in failed.items()},
        })
        if unreached is not None:
            cov["vacuity_probes"] = {"functions": len(runs[0][1].proved), "not_reachable": unreached}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": roots["assumptions"] + cfg.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    tmp = os.path.join(EV, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EV, prop + ".json"))
    if unreached:
        die("contracts that no execution can enter: " + ", ".join(unreached))
    for l in violations:
        print(l)
    if not violations:
        print("%s: %s obligations discharged, %d cases searched, %.1f s" % (
            prop, cov.get("discharged", 0), cov["evaluations"], time.time() - T0))
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
