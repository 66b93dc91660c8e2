#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. govc discharges the obligations of the contracts carrying the property (contracts/*.vc)
   against go/ssa of /repo's working tree.
2. the executable contracts (rac) run against the same tree: they replay the models of failed
   obligations, search a failing input, and are the bounded stand-in for functions outside the
   verifier's reach.
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import json, os, re, subprocess, sys, time, glob, shutil, signal, tempfile

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    seed = 1
t0 = time.time()
BIN = os.path.join(V, "bin")
EV = os.path.join(V, "evidence")
RD = os.path.join(EV, "replay")
os.makedirs(BIN, exist_ok=True)
os.makedirs(RD, exist_ok=True)
work = tempfile.mkdtemp(prefix="jzonverif-")
conf = json.load(open(os.path.join(V, "checks.json")))
pc = conf.get(prop, {})
NPROC = 7
SECS = {"quick": pc.get("secs", 40), "thorough": pc.get("secs_thorough", 420)}[tier]
PROOF_TOTAL = {"quick": 300, "thorough": 600}[tier]

env0 = dict(os.environ)
env0.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
for k in ("GOOS", "GOARCH"):
    env0.pop(k, None)
env23 = dict(env0)
env23["GORACE"] = "halt_on_error=1 exitcode=66"
env23["PATH"] = "/opt/veriftools/go1.23.12/bin:" + env0["PATH"]


def finish(code, line=None):
    shutil.rmtree(work, ignore_errors=True)
    if line:
        print(line)
    sys.stdout.flush()
    os._exit(code)


def newest(pat):
    return max([os.path.getmtime(f) for f in glob.glob(pat)] or [0])


def build_govc():
    b = os.path.join(BIN, "govc")
    if os.path.exists(b) and os.path.getmtime(b) >= newest(os.path.join(V, "govc", "*.go")):
        return b
    tmp = os.path.join(work, "govc")
    r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(V, "govc"), env=env0, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("cannot build the verifier:\n" + r.stdout)
        return None
    try:
        shutil.copy(tmp, b + ".new")
        os.rename(b + ".new", b)
    except OSError:
        return tmp
    return b


def build_rac():
    """always rebuilt from the current tree; the module is copied so that nothing is written to /repo"""
    src = os.path.join(work, "racsrc")
    shutil.copytree(os.path.join(V, "rac"), src)
    m = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(os.path.join(src, "go.mod"), "w").write(m)
    out = os.path.join(work, "rac")
    race = ["-race", "-gcflags=all=-d=checkptr=0"] if pc.get("race") else []
    r = subprocess.run(["go", "build"] + race + ["-o", out, "."], cwd=src, env=env23, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    return out, ""


def spawn(cmd, env, log):
    return subprocess.Popen(cmd, env=env, stdout=open(log, "w"), stderr=subprocess.STDOUT, start_new_session=True, cwd=work)


def wait(procs, limit):
    end = time.time() + limit
    for p in procs:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            pass
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def tail(f, n=3000):
    try:
        s = open(f, errors="replace").read()
    except OSError:
        return ""
    return s[:n] + ("\n...\n" + s[-n:] if len(s) > 2 * n else s[n:])


# ---- proof
govc = build_govc()
proofjson = os.path.join(work, "proof.json")
proof = {"ok": False, "failed": ["the verifier could not be run"], "obligations": 1, "discharged": 0, "functions": [], "lemmas": []}
pp = None
if govc:
    pp = spawn([govc, "-repo", REPO, "-contracts", os.path.join(V, "contracts"), "-prop", prop, "-json", proofjson,
                "-total", str(PROOF_TOTAL), "-limit", str(pc.get("limit", 200))], env0, os.path.join(work, "proof.log"))

# ---- executable contracts, concurrently
rac, racerr = build_rac()


def run_rac(tag, secs, n, extra=(), base=0):
    ps = []
    for i in range(n):
        k = "%s%d" % (tag, i)
        ps.append((k, spawn([rac, "-prop", prop, "-seed", str(seed * 1000 + base + i), "-secs", str(secs), "-tier", tier,
                             "-out", os.path.join(work, k + ".json"), "-stats", os.path.join(work, k + ".stats")] + list(extra),
                            env23, os.path.join(work, k + ".log"))))
    return ps


def trace_rac(k, base_args):
    """rerun a crashed or hanging shard with tracing to name the input"""
    tr = os.path.join(work, k + ".trace")
    p = spawn(base_args + ["-trace", tr], env23, os.path.join(work, k + ".log2"))
    wait([p], 200)
    return p.returncode, tail(tr, 20000)


def collect(ps, limit):
    """returns (replay dict or None, counts)"""
    end = time.time() + limit
    while time.time() < end and any(p.poll() is None for _, p in ps) and not any(p.poll() in (1, 66) for _, p in ps):
        time.sleep(0.2)
    killed = set()
    for k, p in ps:
        if p.poll() is None and any(q.poll() in (1, 66) for _, q in ps):
            killed.add(k)
    wait([p for _, p in ps], 0.1)
    counts = {}
    fail = None
    for k, p in ps:
        try:
            for n, c in json.load(open(os.path.join(work, k + ".stats"))).items():
                counts[n] = counts.get(n, 0) + c
        except (OSError, ValueError):
            pass
        if p.returncode == 0 or fail or k in killed:
            continue
        j = os.path.join(work, k + ".json")
        if p.returncode == 1 and os.path.exists(j):
            fail = json.load(open(j))
        elif p.returncode == 3:
            continue
        elif p.returncode == 66:
            fail = {"property": prop, "check": "data race between goroutines using one configuration", "seed": seed, "input": "first uses of several types from 8 goroutines (rac -prop %s, built with -race)" % prop,
                    "observed": tail(os.path.join(work, k + ".log"), 4000)}
        else:
            rc, tr = trace_rac(k, p.args)
            if rc == 1 and os.path.exists(j):
                fail = json.load(open(j))
            elif rc not in (0, 3):
                log = tail(os.path.join(work, k + ".log2"))
                fail = {"property": prop, "check": "the process running the operation ended abnormally", "input": tr, "observed": "exit %s\n%s" % (rc, log)}
    return fail, counts


fail, counts = None, {}
if rac:
    ps = run_rac("a", SECS, NPROC if not pp else NPROC - 1)
    fail, counts = collect(ps, SECS * 2 + 120)

if pp:
    # with a failing input at hand the verdict is settled: do not wait for the solver's limits
    wait([pp], 60 if fail else PROOF_TOTAL + 60)
    if os.path.exists(proofjson):
        proof = json.load(open(proofjson))
    else:
        proof["failed"] = ["the verifier gave no result: " + tail(os.path.join(work, "proof.log"))]

# failed obligations: look harder for a failing input, seeded with the verifier's models
if not fail and not proof["ok"] and rac:
    hints = os.path.join(work, "hints")
    with open(hints, "w") as f:
        for fn in proof.get("functions") or []:
            for o in fn.get("obligations") or []:
                m = o.get("model")
                if m:
                    vals = [int(x) for x in re.findall(r"-?\d+", m.replace("(- ", "-"))]
                    for b in range(0, len(vals) - 24, 25):
                        n, bs = vals[b], [v & 255 for v in vals[b + 1:b + 25]]
                        for k in {max(0, min(n, 24)), 24}:
                            f.write('"' + "".join("\\x%02x" % v for v in bs[:k]) + '"\n')
    ps = run_rac("b", SECS * 2, NPROC + 1, ["-hints", hints], base=500)
    fail, c2 = collect(ps, SECS * 4 + 120)
    for n, c in c2.items():
        counts[n] = counts.get(n, 0) + c

# ---- known findings: only those listed are set aside, by check name and input
known = []
for l in open(os.path.join(V, "known-findings.txt")):
    l = l.strip()
    if l.startswith("known: property=%s " % prop):
        known.append(l[len("known: property=%s " % prop):])
for k in known:
    print("KNOWN-FINDING: property=%s %s" % (prop, k))

viol = bool(fail) or not proof["ok"]
replay = os.path.join(RD, prop + ".json")
if viol:
    d = {"property": prop, "tree": REPO}
    if fail:
        d["failing_input"] = fail
        d["how_to_rerun"] = "cd /verif && go run ./rac -prop %s -seed %s (module rac, replace => /repo)" % (prop, fail.get("seed"))
    if not proof["ok"]:
        d["failed_obligations"] = proof["failed"]
        d["verifier_output"] = tail(os.path.join(work, "proof.log"))
        d["models"] = [o for fn in proof.get("functions") or [] for o in (fn.get("obligations") or []) if not o.get("ok", True)][:10]
    json.dump(d, open(replay, "w"), indent=1)

# ---- evidence
fns = proof.get("functions") or []
cov = {
    "obligations": proof["obligations"], "discharged": proof["discharged"],
    "checker_cmd": "bin/govc -repo %s -prop %s" % (REPO, prop),
    "back_end": "z3 (z3-new 5.3.2), incremental SMT-LIB sessions, one per function",
    "functions_under_contract": [f["key"] for f in fns],
    "functions_inlined": proof.get("inlined") or [],
    "contracts_dropped_for_inlining": proof.get("dropped_contracts") or [],
    "lemmas": [l["key"] for l in proof.get("lemmas") or []],
    "solver_queries": proof.get("queries"), "solver_s": round(proof.get("solver_s") or 0, 2), "proof_wall_s": round(proof.get("wall_s") or 0, 2),
    "failed_obligations": proof.get("failed") or [],
    "trusted_base": conf["_trusted"] + pc.get("trusted", []),
    "bounded_stand_in": {"label": "bounded, not counted as proved", "what": pc.get("bounded", "replay and search for failing inputs of the same contracts"),
                         "evaluations": sum(counts.values()), "per_contract": counts, "seconds_per_process": SECS, "seed": seed, "build": "ok" if rac else racerr[:2000]},
}
level = pc.get("level", "proof")
if level != "proof":
    cov["explanation"] = pc.get("explanation", "")
    cov["evaluations"] = sum(counts.values())
ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
      "assumptions": sorted(set((proof.get("assumptions") or []) + pc.get("assumptions", []))),
      "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)

print("%s: %d functions under contract, %d/%d obligations discharged, %d bounded evaluations, %.1f s" %
      (prop, len(fns), proof["discharged"], proof["obligations"], sum(counts.values()), time.time() - t0))
if viol:
    for o in proof.get("failed") or []:
        print("  failed obligation:", o[:400])
    if fail:
        print("  failing input (%s): %s\n  observed: %s" % (fail.get("check"), str(fail.get("input"))[:600], str(fail.get("observed"))[:600]))
        finish(1, "VIOLATION property=%s replay=%s" % (prop, replay))
    finish(1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
finish(0)
