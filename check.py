#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]

Decides one property of m-cat/over on /repo's current working tree:
  1. extracts every function of the crate from /repo/src into one Verus file, together with its contract;
  2. lets Verus discharge every obligation (the deciding step);
  3. looks for a concrete failing input against the real crate with the independent oracle of replay/.
See DESIGN.md for what each outcome means.
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
T0 = time.time()
PROP = sys.argv[1]
THOROUGH = "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1"))
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")
ENV["CARGO_NET_OFFLINE"] = "true"
CENV = dict(ENV, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
CENV.pop("CARGO_TARGET_DIR", None)
os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
WORK = tempfile.mkdtemp(prefix="run-%s-" % PROP, dir=os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "evidence", "replays")
os.makedirs(REPLAYS, exist_ok=True)
DEADLINE = T0 + (2400 if THOROUGH else 780)
log_lines = []

def say(*a):
    print(*a, flush=True)

def run(cmd, timeout, cwd=HERE, env=ENV):
    """-> (rc or None on timeout, stdout, stderr); the whole process group ends with it."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate(); rc = None
    return rc, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")

def cargo_build(d):
    with open(os.path.join(HERE, "build", os.path.basename(d) + ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return run(["cargo", "build", "--offline", "-q", "--locked"], 400, cwd=d, env=CENV)

# ------------------------------------------------------------------ the witness search (bounded)
class Search:
    """Bounded search for an input on which the real crate breaks the property."""
    def __init__(self):
        self.bin = os.path.join(HERE, "replay", "target", "debug", "vreplay")
        self.ready = threading.Event(); self.build_error = None
        self.stats = dict(cases=0, distinct=0, outcomes={}, samples=[], secs=0.0, rounds=0)
        self.case = None; self.why = None
    def build(self):
        rc, o, e = cargo_build(os.path.join(HERE, "replay"))
        if rc != 0: self.build_error = (o + e)[-3000:] or "timeout"
        self.ready.set()
    def go(self, secs, procs, rnd):
        self.ready.wait()
        if self.build_error or self.case: return
        out = os.path.join(WORK, "search%d" % rnd)
        rc, o, e = run([self.bin, "search", PROP, str(SEED * 1000 + rnd), "1000000000", str(secs), out, str(procs)], secs + 200)
        self.stats["rounds"] += 1
        for f in sorted(os.listdir(out)) if os.path.isdir(out) else []:
            if f.endswith(".stats"):
                try: s = json.load(open(os.path.join(out, f)))
                except ValueError: continue
                self.stats["cases"] += s["cases"]; self.stats["distinct"] += s["distinct"]; self.stats["secs"] += s["secs"]
                for k, v in s["outcomes"].items(): self.stats["outcomes"][k] = self.stats["outcomes"].get(k, 0) + v
                if len(self.stats["samples"]) < 4: self.stats["samples"] += s["samples"][:1]
        m = re.search(r"^FOUND (.*)$", o, re.M)
        if m:
            dst = os.path.join(REPLAYS, PROP + ".case")
            shutil.copy(m.group(1), dst)
            # the case must fail again, by itself, against the real crate
            rc2, o2, _ = run(["sh", "-c", 'ulimit -v 12000000; exec "$0" run "$1"', self.bin, dst], 120)
            if rc2 == 0: return
            self.case = dst; self.why = (o2.strip() or "the process dies or gives no answer (exit %s)" % rc2)[:1500]
            with open(dst, "a") as f: f.write("# replay: %s run %s\n" % (self.bin, dst))

# ------------------------------------------------------------------ the proof
def norm_ws(s): return re.sub(r"\s+", " ", s)

class Proof:
    def __init__(self):
        self.undecided = []      # (function, reason): outside the verifier's reach on this tree
        self.failed = []         # dicts: function, kind, label, props, text
        self.ok = False; self.verified = 0; self.smt_ms = 0; self.times = {}; self.map = None; self.demoted = []
        self.cmds = []; self.retried = []
    def extract(self, name, extra=None):
        env = dict(ENV); env.update(extra or {})
        if self.demoted: env["VX_DEMOTE"] = "\n".join(self.demoted)
        rs, mp = os.path.join(WORK, name + ".rs"), os.path.join(WORK, name + ".json")
        rc, o, e = run([os.path.join(HERE, "extract/target/debug/vx-extract"), REPO + "/src", os.path.join(HERE, "contracts"), rs, mp], 60, env=env)
        if rc != 0: return None, (o + e).strip()[-800:]
        return rs, json.load(open(mp))
    def verus(self, rs, *opts, rlimit=30, timeout=420):
        cmd = ["verus", "--edition=2021", os.path.basename(rs), "--multiple-errors", "8", "--rlimit", str(rlimit), "--num-threads", "8", "--time", "--output-json", "--error-format=json"] + list(opts)
        self.cmds.append(" ".join(cmd))
        rc, o, e = run(cmd, min(timeout, DEADLINE - time.time()), cwd=WORK)
        try: js = json.loads(o[o.index("{"):])
        except ValueError: js = None
        errs = []
        for l in e.splitlines():
            if l.startswith("{") and '"level":"error"' in l:
                try: d = json.loads(l)
                except ValueError: continue
                if not d["message"].startswith("aborting due to"): errs.append(d)
        return rc, js, errs, e
    def owner(self, line, mp):
        for f in mp["functions"]:
            if f["first"] and f["first"] <= line <= f["last"]: return f
        return None
    def label(self, a, b, mp, want=None):
        best = None
        for la, lb, t in mp["labels"]:
            if la <= a and b <= lb and (want is None or t.split("|")[0] in want):
                if best is None or lb - la <= best[0]: best = (lb - la, t)
        return best[1] if best else None
    def run(self, base_fns):
        rs, mp = self.extract("over")
        if rs is None: self.undecided.append(("*", "extraction: " + mp)); return
        for attempt in range(6):
            rc, js, errs, raw = self.verus(rs)
            if rc is None or js is None: self.undecided.append(("*", "verifier gave no answer (%s)" % ("time limit" if rc is None else raw[-300:]))); self.map = mp; self.rs = rs; return
            vr = js["verification-results"]
            structural = vr.get("encountered-vir-error") or (not vr["success"] and vr.get("errors", 0) == 0)
            if not structural: break
            # the extracted text of some function is outside the verifier's dialect: leave its body out, keep the rest
            fs = set()
            for d in errs:
                for s in d["spans"]:
                    f = self.owner(s["line_start"], mp)
                    if f and f["name"] not in self.demoted: fs.add(f["name"]); self.undecided.append((f["name"], "not accepted by the verifier's front end: " + d["message"][:200])); break
            if not fs: self.undecided.append(("*", "not accepted by the verifier's front end: " + "; ".join(d["message"] for d in errs)[:400])); self.map = mp; self.rs = rs; return
            self.demoted += sorted(fs)
            rs, mp = self.extract("over")
            if rs is None: self.undecided.append(("*", "extraction: " + mp)); return
        else:
            self.undecided.append(("*", "not accepted by the verifier's front end")); self.map = mp; self.rs = rs; return
        self.map = mp; self.rs = rs
        self.text = open(rs).read().split("\n")
        self.verified = vr["verified"]; self.errors = vr["errors"]
        self.smt_ms = js["times-ms"]["smt"]["smt-run"] if "smt-run" in js["times-ms"]["smt"] else 0
        for m in js["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m["function-breakdown"]: self.times[f["function"]] = (f["time"], f["success"])
        for f, why in mp["problems"] + [(f, "lost anchor: " + w) for f, w in mp["lost"]]:
            if (f, why) not in self.undecided and why != "demoted by the runner": self.undecided.append((f, why))
        for f in mp["unused_contracts"]: self.undecided.append((f, "the contract's function no longer exists"))
        new = [f for f in mp["functions"] if f["name"] not in base_fns and not f["contract"]]
        names = {f["emitted"] or f["name"].split("::")[-1] for f in new}
        for f in new: self.undecided.append((f["name"], "a function without a contract"))
        self.uses_new = set()
        for f in mp["functions"]:
            if not f["first"]: continue
            body = "\n".join(self.text[f["first"] - 1:f["last"]])
            if any(re.search(r"\b%s\s*(::<[^>]*>)?\(" % re.escape(n), body) for n in names): self.uses_new.add(f["name"])
        if errs: errs = self.retry(rs, mp, errs)
        self.classify(errs, mp, rs)
        self.ok = not self.failed and not self.undecided
    def modules_of(self, errs, mp):
        ms = set()
        for d in errs:
            for s in d["spans"]:
                f = self.owner(s["line_start"], mp)
                if f: ms.add(f["name"].split("::<")[0].rsplit("::", 1)[0] if "::<" not in f["name"] else f["name"].split("::<")[0]); break
        return ms
    def retry(self, rs, mp, errs):
        """An obligation counts as failed only if it fails under other solver seeds and a larger limit too."""
        cur = errs
        for seed, rl in ((11, 60), (4242, 90)):
            fns = {self.errfn(d, mp) for d in cur}
            rc, js, e2, raw = self.verus(rs, "--smt-option", "smt.random_seed=%d" % seed, rlimit=rl, timeout=240)
            if rc is None or js is None: break
            keep = {self.errfn(d, mp) for d in e2}
            for f in fns - keep: self.retried.append("%s (solver seed %d)" % (f, seed))
            cur = [d for d in e2 if self.errfn(d, mp) in fns]
            if not cur: break
        return cur
    def errfn(self, d, mp):
        for s in sorted(d["spans"], key=lambda s: s["is_primary"]):
            f = self.owner(s["line_start"], mp)
            if f and (s["label"] or "") != "failed precondition": return f["name"]
        for s in d["spans"]:
            f = self.owner(s["line_start"], mp)
            if f: return f["name"]
        return "(specification)"
    def classify(self, errs, mp, rs):
        info = {f["name"]: f for f in mp["functions"]}
        troubled = {f for f, _ in self.undecided}
        by_fn = {}
        for d in errs:
            fn = self.errfn(d, mp); m = d["message"]; lab = None; kind = "body"
            for s in d["spans"]:
                l = s["label"] or ""
                if "failed this postcondition" in l or "failed precondition" in l or "failed this invariant" in l or s["is_primary"]:
                    t = self.label(s["line_start"], s["line_end"], mp)
                    if t and ("postcondition" in l or "precondition" in l or "invariant" in l or lab is None): lab = t
            head = (lab or "").split("|")[0]
            if "esource limit" in m or "rlimit" in m or "timed out" in m: kind = "limit"
            elif "invariant" in m: kind = "invariant"
            elif "postcondition" in m: kind = "postcondition"
            elif "precondition" in m: kind = "precondition"
            elif "decreases" in m or "termination" in m: kind = "termination"
            elif "assertion" in m: kind = "panic" if head != "proof" else "stated" if (lab.split("|") + [""] * 4)[3].strip() else "hint"
            elif "overflow" in m or "underflow" in m or "division" in m or "bounds" in m: kind = "panic"
            by_fn.setdefault(fn, []).append(dict(function=fn, kind=kind, label=lab, message=m, rendered=d["rendered"]))
        for fn, es in by_fn.items():
            f = info.get(fn)
            why = None
            if f is None: why = "obligation of the specification itself"
            elif not f["contract"]: why = "function without a contract"
            elif fn in troubled or f["external"]: why = "function changed beyond the contract's anchors"
            elif fn in self.uses_new: why = "it calls a function without a contract"
            elif any(e["kind"] == "limit" for e in es): why = "solver resource limit"
            elif any(e["kind"] in ("invariant", "hint", "termination") for e in es): why = "the proof of a loop (its invariant or measure) no longer goes through"
            if why:
                self.undecided.append((fn, "%s: %s" % (why, "; ".join(sorted({e["message"] for e in es})))))
                for e in es: self.undec_detail.append(e)
                continue
            for e in es:
                parts = (e["label"] or "").split("|")
                tags = parts[3].split() if len(parts) > 3 else []
                if e["kind"] == "panic" or (e["kind"] == "precondition" and (parts[0] in ("vx", "") )): props = ["C12"]
                elif e["kind"] == "precondition": props = ["C12"] + f["props"]
                else: props = list(dict.fromkeys(tags + ([] if tags == ["C15"] else f["props"])))
                e["props"] = props or f["props"]
                self.failed.append(e)
    undec_detail = []

# ------------------------------------------------------------------ cone of influence
def cone(proof):
    """The functions the property's clauses are on, and everything they call (by name, over-approximated)."""
    mp = proof.map; text = proof.text
    fns = [f for f in mp["functions"] if f["first"]]
    tagged = {f["name"] for f in fns if PROP in f["props"]}
    for a, b, l in mp["labels"]:
        p = l.split("|")
        if len(p) > 3 and PROP in p[3].split(): tagged.add(p[1])
    by_emit = {}
    for f in fns: by_emit.setdefault(f["emitted"] or f["name"].split("::")[-1], []).append(f["name"])
    calls = {}
    for f in fns:
        body = "\n".join(text[f["first"] - 1:f["last"]])
        calls[f["name"]] = {n for w in set(re.findall(r"\b([A-Za-z_]\w*)\s*\(", body)) for n in by_emit.get(w, [])}
    seen, todo = set(), [t for t in tagged]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += list(calls.get(x, ()))
    return tagged, seen

def trusted(proof):
    """Everything assumed, read off the verified text itself."""
    out = []
    t = "\n".join(proof.text)
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(proof fn|fn|struct)\s+(\w+)", t):
        im = None
        for im in re.finditer(r"\bimpl(?:<[^{]*?>)?\s+([^{;]*?)\s*\{", t[max(0, m.start() - 6000):m.start()]): pass
        inside = t[max(0, m.start() - 6000) + im.end():m.start()] if im else "}"
        ctx = "" if m.group(1) != "fn" or inside.count("}") > inside.count("{") else norm_ws(im.group(1)) + "::"
        m = (lambda g: type("M", (), dict(group=lambda self, i: g[i])))( (None, m.group(1), ctx + m.group(2)) )()
        out.append(("axiom " if m.group(1) == "proof fn" else "assumed contract " if m.group(1) == "fn" else "opaque type ") + m.group(2))
    for m in re.finditer(r"assume_specification(?:<[^>]*>)?\s*\[\s*([^\]]*)\]", t): out.append("assumed contract " + m.group(1).strip())
    n = len(re.findall(r"\b(?:admit\(\)|assume\()", t))
    if n: out.append("%d assume/admit statements" % n)
    # a shim method that stands for a function of the crate: its assumed contract is proved from that function's own
    linked = {}
    for a, b, l in proof.map["labels"]:
        g = re.match(r"link\|.*<(.*) as ([\w:]+?)(?:<.*>)?>::(\w+)\|", l)
        if g: linked["%s for %s::" % ({"PartialEq": "VxEq<%s>" % g.group(1), "fmt::Display": "VxDisp", "Display": "VxDisp"}.get(g.group(2), g.group(2)), g.group(1))] = g.group(0)[5:-1]
    for i, x in enumerate(out):
        for k, v in linked.items():
            if x.startswith("assumed contract " + k): out[i] = "linked contract (follows from the contract of %s) %s" % (v, x[17:])
    cnt = {}
    for x in out: cnt[x] = cnt.get(x, 0) + 1
    return ["%s%s" % (k, " (x%d)" % v if v > 1 else "") for k, v in sorted(cnt.items())]

ASSUMPTIONS = [
    "the extraction (extract/, rules listed in coverage.extraction_rules) preserves the meaning of the source it rewrites",
    "Verus, Z3 and rustc are correct",
    "the assumed contracts in coverage.trusted_base describe std, num-bigint and num-rational",
    "the file system does not change while a file is being parsed",
    "Display/Debug text of std and num types is uninterpreted except for decimal integers",
    "recursion that passes through equality, clone, Display or format of a contained value ends because values are finite trees (those recursive calls go to the linked shim contracts, without a measure)",
    "memory is unlimited; call-stack use is bounded through the nesting depth, not measured",
]

def vacuity(proof):
    """Every function entry, loop body and function exit must be reachable under its contract."""
    points = bad = 0; missing = []
    for v in ("entry", "begin", "tail", "loop 2 begin"):
        rs, mp = proof.extract("vac_" + v.replace(" ", "_"), {"VX_VACUITY": v})
        if rs is None: return dict(error=mp)
        rc, js, errs, raw = proof.verus(rs)
        pts = [l for l in mp["labels"] if "|vacuity " in l[2]]
        hit = {p[2] for d in errs for s in d["spans"] for p in pts if p[0] <= s["line_start"] <= p[1]}
        nested = {p[2] for p in pts if v == "begin" and " loop 2 " in p[2]}
        points += len(pts) - len(nested)
        missing += [p[2] for p in pts if p[2] not in hit and p[2] not in nested]
    return dict(points=points, reachable=points - len(missing), unreachable=missing)

def known():
    fs = []
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\w+) id=(\w+) (.*)$", l)
        if m: fs.append(m.groups())
    return fs

def main():
    base = json.load(open(os.path.join(HERE, "contracts", "functions.json")))
    search = Search(); proof = Proof()
    sb = threading.Thread(target=search.build); sb.start()
    rc, o, e = cargo_build(os.path.join(HERE, "extract"))
    if rc != 0: proof.undecided.append(("*", "the extractor does not build: " + (o + e)[-500:]))
    def first():
        search.go(20 if not THOROUGH else 120, 4, 0)
    st = threading.Thread(target=first); st.start()
    if rc == 0: proof.run(set(base["functions"]))
    st.join(); sb.join()
    tagged, infl = cone(proof) if proof.map and getattr(proof, "text", None) else (set(), set())
    mine = [f for f in proof.failed if PROP in f["props"]]
    und = [(f, w) for f, w in proof.undecided if f in infl or f == "*" or f not in base["functions"] or not infl]
    other = [f for f in proof.failed if PROP not in f["props"] and f["function"] in infl]
    rnd = 1
    if (mine or und or other or THOROUGH) and not search.case:
        search.go(45 if not THOROUGH else 600, 8, rnd); rnd += 1
    vac = vacuity(proof) if THOROUGH and proof.ok else None
    seeds = []
    if THOROUGH and proof.ok:
        for s in (7, 99):
            rc, js, errs, _ = proof.verus(proof.rs, "--smt-option", "smt.random_seed=%d" % s, rlimit=60)
            seeds.append(dict(seed=s, verified=js and js["verification-results"]["verified"], errors=js and js["verification-results"]["errors"]))
    # the contracts assumed of the libraries, evaluated on the real libraries (bounded)
    conform = None
    if not search.build_error:
        crc, co, _ = run([search.bin, "conform", str(SEED), "1000000" if THOROUGH else "20000"], 300)
        m = re.search(r"^(CONFORM|BROKEN) (.*)$", co, re.M)
        conform = (m.group(1) + " " + m.group(2)) if m else "no answer (exit %s)" % crc
        if not conform.startswith("CONFORM"): und.append(("*", "an assumed contract does not hold of the real library: " + conform))
    # ---------------------------------------------------------------- verdict
    viol = 0
    for p, i, txt in known():
        if p != PROP: continue
        search.ready.wait()
        rc = 1
        if not search.build_error: rc, _, _ = run(["sh", "-c", 'ulimit -v 12000000; exec "$0" known "$1"', search.bin, i], 120)
        if rc != 0: say("KNOWN-FINDING: property=%s %s" % (PROP, txt))
    detail = ""
    for f in mine: detail += "FAILED OBLIGATION %s of %s (%s)\n%s\n%s\n\n" % (f["kind"], f["function"], ",".join(f["props"]), f["label"] or "", f["rendered"])
    if search.case:
        viol = 1
        say("found: " + search.why.split("\n")[0][:300])
        for f in mine[:6]: say("failed obligation: %s: %s [%s]" % (f["function"], f["message"], f["label"]))
        with open(search.case, "a") as fh:
            for l in detail.splitlines(): fh.write("# " + l + "\n")
        say("VIOLATION property=%s replay=%s" % (PROP, search.case))
    elif mine:
        viol = 1
        path = os.path.join(REPLAYS, PROP + ".obligation.txt")
        with open(path, "w") as fh:
            fh.write("property %s: obligations the verifier discharges on the unchanged tree and rejects here; no failing input found in %d cases\n\n%s" % (PROP, search.stats["cases"], detail))
        for f in mine[:6]: say("failed obligation: %s: %s [%s]" % (f["function"], f["message"], f["label"]))
        say("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, path))
    else:
        if und or other:
            say("UNDECIDED property=%s the proof is incomplete on this tree; bounded stand-in: %d cases, none fails" % (PROP, search.stats["cases"]))
            for f, w in und[:8]: say("  undecided: %s: %s" % (f, norm_ws(w)[:300]))
            for f in other[:8]: say("  failed for another property: %s: %s [%s]" % (f["function"], f["message"], f["label"]))
        else:
            say("HOLDS property=%s %d functions in its cone, crate: %d verified, 0 errors; %d search cases, none fails" % (PROP, len(infl), proof.verified, search.stats["cases"]))
    # ---------------------------------------------------------------- evidence
    mp = proof.map or dict(functions=[], labels=[], rules={})
    badfn = {f for f, _ in proof.undecided} | {f["function"] for f in proof.failed}
    obl = dis = 0; per = []
    for f in mp["functions"]:
        if f["name"] not in infl: continue
        n = 1 + sum(1 for l in mp["labels"] if l[2].split("|")[1:2] == [f["name"]] and l[2].split("|")[0] in ("ens", "inv", "xinv", "proof", "loopens"))
        nbad = 0
        if f["name"] in badfn: nbad = n if any(x == f["name"] for x, _ in proof.undecided) else sum(1 for x in proof.failed if x["function"] == f["name"])
        obl += n; dis += n - min(n, nbad); per.append(f["name"])
    lemmas = [k for k, v in proof.times.items() if "::sp::" in k]
    obl += len(lemmas); dis += sum(1 for k in lemmas if proof.times[k][1])
    ev = dict(property=PROP, tier="thorough" if THOROUGH else "quick", seed=SEED, level="proof", wall_s=round(time.time() - T0, 2), violations=viol, assumptions=ASSUMPTIONS,
        coverage=dict(obligations=obl, discharged=dis if (proof.map and proof.times) else 0, checker_cmd=proof.cmds[0] if proof.cmds else "verus (not reached)", trusted_base=trusted(proof) if proof.map and getattr(proof, "text", None) else ["nothing was verified"],
            counting="one obligation per contract clause, loop invariant and proof step of each function in the property's cone, one per function for its body (no panic, no overflow, callee preconditions, termination), one per lemma of the specification",
            functions_with_a_clause_for_the_property=sorted(tagged), functions_in_the_cone=sorted(per), functions_under_contract_in_crate=sum(1 for f in mp["functions"] if f["contract"]), crate_verified=proof.verified,
            functions_outside=[[f["name"], f["skipped"]] for f in mp["functions"] if f["skipped"]], backend="Verus (Z3)", solver_ms=proof.smt_ms, slowest_functions=sorted(([v[0], k] for k, v in proof.times.items()), reverse=True)[:5],
            extraction_rules=mp["rules"], undecided=[[a, norm_ws(b)[:400]] for a, b in proof.undecided], failed_obligations=[[f["function"], f["kind"], f["label"]] for f in proof.failed], discharged_on_retry=proof.retried,
            bounded_stand_in="bounded, not counted as proved: concrete cases run on the real crate and compared with the oracle", evaluations=search.stats["cases"], distinct_nontrivial=search.stats["distinct"],
            rule="random documents, file trees and API calls for this property (replay/src/gen.rs); distinct case texts that reach a verdict other than 'none' or 'too deep'", samples=search.stats["samples"], search_outcomes=search.stats["outcomes"]))
    if conform: ev["coverage"]["assumed_contracts_evaluated_on_the_real_libraries"] = conform.replace("CONFORM ", "") + " (bounded: every character, sampled texts, numbers, paths, maps)"
    if vac is not None: ev["coverage"]["vacuity"] = vac
    if seeds: ev["coverage"]["other_solver_seeds"] = seeds
    if search.build_error: ev["coverage"]["search_unavailable"] = search.build_error
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1)
    if vac and (vac.get("unreachable") or vac.get("error")): say("VACUITY %s" % vac)
    return 1 if viol else 0

rc = 0
try: rc = main()
finally: shutil.rmtree(WORK, ignore_errors=True)
sys.exit(rc)
