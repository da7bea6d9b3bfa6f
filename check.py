#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo by deductive verification.

Builds the verifier (govc) from /verif/govc, generates every obligation of the
property's contracts from /repo's current source, discharges them, and - when an
obligation is refused - searches the real code for a concrete failing input.
"""
import json, os, re, subprocess, sys, tempfile, time, shutil, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()

cfg = json.load(open(f"{VERIF}/checks.json"))
C = cfg["properties"].get(prop, {})
env = dict(os.environ)
for l in subprocess.run(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; env"], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition("=")
    if k in ("PATH", "GOROOT", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "GO111MODULE", "GOWORK", "HOME"):
        env[k] = v
env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
work = tempfile.mkdtemp(prefix="verif-")
known = []
for l in open(f"{VERIF}/known-findings.txt"):
    l = l.strip()
    if l and not l.startswith("#") and not l.startswith("fixed:"):
        known.append(l)

def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=kw.pop("env", env), **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out

def done(code):
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def scenario_files():
    d = f"{VERIF}/replay"
    return sorted(f for f in os.listdir(d) if f.endswith("_test.go"))

def overlay(files):
    rep = {f"{REPO}/zz_replay_{f}": f"{VERIF}/replay/{f}" for f in files}
    if "sched_test.go" in files:
        # the package's own files, importing stand-ins for sync/atomic and runtime
        module = re.search(r"^module (\S+)", open(f"{REPO}/go.mod").read(), re.M).group(1)
        os.makedirs(f"{work}/src", exist_ok=True)
        for n in ("atomic", "runtime"):
            rep[f"{REPO}/zz{n}/zz{n}.go"] = f"{VERIF}/replay/shim/{n}.go.txt"
        for f in sorted(os.listdir(REPO)):
            if f.endswith(".go") and not f.endswith("_test.go"):
                t = open(f"{REPO}/{f}").read()
                u = re.sub(r'^(import\s+|\s+)"sync/atomic"', rf'\1"{module}/zzatomic"', t, flags=re.M)
                u = re.sub(r'^(import\s+|\s+)"runtime"', rf'\1"{module}/zzruntime"', u, flags=re.M)
                if u != t:
                    open(f"{work}/src/{f}", "w").write(u)
                    rep[f"{REPO}/{f}"] = f"{work}/src/{f}"
    p = f"{work}/overlay.json"
    json.dump({"Replace": rep}, open(p, "w"))
    return p

def build_replay():
    """test binary with the engine and every helper file that still compiles"""
    files = scenario_files()
    binp = f"{work}/replay.test"
    def attempt(fs):
        rc, out = run(["go", "test", "-c", "-vet=off", "-overlay", overlay(fs), "-o", binp, "."], 300, cwd=REPO)
        return rc == 0
    if attempt(files):
        return binp, files
    keep = ["engine_test.go"]
    for f in files:
        if f != "engine_test.go" and attempt(["engine_test.go", f]):
            keep.append(f)
    if attempt(keep):
        return binp, keep
    if attempt(["engine_test.go"]):
        return binp, ["engine_test.go"]
    return None, []

def search(secs):
    """look for a concrete failing input in the real code; returns (text or None, stats)"""
    binp, files = build_replay()
    if not binp:
        return None, "replay engine does not compile against the changed code"
    jobs = []
    n = 6
    for i in range(n):
        e = dict(env)
        e.update(VERIF_SEED=str(seed * 1000 + i), VERIF_BUDGET=str(secs), VERIF_PROP=prop, VERIF_CUR=f"{work}/cur{i}.json", VERIF_JOB=str(i), VERIF_ACCEPT="" if unlisted else C.get("accept", ""), VERIF_SCHED=str(C.get("sched", 15)), GOMAXPROCS="4")
        f = open(f"{work}/replay{i}.out", "w")
        jobs.append((i, subprocess.Popen([binp, "-test.run", "TestVerifReplay", "-test.timeout", f"{secs+150}s"], cwd=work, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)))
    found, stats = None, []
    end = time.time() + secs + 160
    pending = dict(jobs)
    while pending and time.time() < end and not found:
        time.sleep(0.2)
        for i in list(pending):
            if pending[i].poll() is None:
                continue
            rc = pending.pop(i).returncode
            out = open(f"{work}/replay{i}.out").read()
            m = re.search(r"WITNESS .*\n(?:WITNESS-INPUT .*)?", out)
            if m:
                found = m.group(0) + f"\n(seed {seed*1000+i}; files {' '.join(files)})"
            elif rc != 0:
                cur = ""
                try:
                    cur = open(f"{work}/cur{i}.json").read()[:20000]
                except OSError:
                    pass
                found = f"WITNESS crash of the process (exit {rc})\nWITNESS-INPUT {cur}\n{out[-3000:]}"
            else:
                stats += re.findall(r"REPLAY-STATS (.*)", out)
    for p in pending.values():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    return found, "; ".join(stats)

rc, out = run([f"{VERIF}/tool.sh", f"{work}/govc"], 600)
if rc != 0:
    print(out)
    print("building the verifier failed")
    done(2)
rc, out = run(["go", "build", "./..."], 600, cwd=REPO)
if rc != 0:
    print(out)
    print("/repo does not build")
    done(2)

t = C.get("timeout", 20) * (3 if tier == "thorough" else 1)
budget = C.get("budget", 560) * (6 if tier == "thorough" else 1)
cmd = [f"{work}/govc", "-prop", prop, "-t", str(t), "-budget", str(budget), "-hints", f"{VERIF}/hints.json", "-out", f"{work}/r.json", "-work", f"{work}/q", "-dump", f"{work}/dump"]
rc, out = run(cmd, budget + 60)
print(out)
try:
    res = json.load(open(f"{work}/r.json"))
except Exception:
    res = {"error": "no result from the verifier: " + out[-2000:]}
failed, obls, disc, backends, funcs, assumed, targets = [], 0, 0, {}, set(), set(), []
for c in res.get("contracts") or []:
    if c["Target"]:
        targets.append(c["Target"])
    if c["Error"]:
        failed.append(f"{c['Contract']}: {c['Error']}")
    for o in c["Obligations"] or []:
        obls += 1
        if o["Result"] == "proved":
            disc += 1
            backends[o["Backend"].split(" (")[0]] = backends.get(o["Backend"].split(" (")[0], 0) + 1
        else:
            failed.append(f"{c['Contract']}: {o['Name']} [{o['Pos']}] {o['Result']}")
    funcs |= set(c["Functions"] or [])
    assumed |= set(c["Assumed"] or [])
if "error" in res:
    failed.append(res["error"])
if not failed and obls == 0:
    failed.append("no obligations were generated")
listed = [k for k in known if f"property={prop} " in k]
unlisted = [f for f in failed if not any(k.split(" ", 1)[1].strip() and k.split(" ", 1)[1].strip() in f for k in listed)]

violations, replay, stats, bounded = [], None, "", None
os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
rp = f"{VERIF}/evidence/replay/{prop}.txt"
found = None
standin = C.get("bounded")
if unlisted:
    found, stats = search(C.get("search_s", 60) * (5 if tier == "thorough" else 1))
elif standin:
    # functions beyond the verifier's reach: bounded, never counted as proved
    found, stats = search(standin["seconds"] * (8 if tier == "thorough" else 1))
    bounded = {"what": standin["what"], "bound": standin["bound"], "ran": stats}
if unlisted or found:
    with open(rp, "w") as f:
        f.write(f"property {prop}\n\nfailed obligations:\n")
        for x in unlisted:
            f.write("  " + x + "\n")
        f.write("\nfailing input on the real code:\n")
        f.write((found or "none found") + "\n")
        f.write("\nverifier output:\n" + out[-20000:])
        d = f"{work}/dump"
        if os.path.isdir(d) and not found:
            for q in sorted(os.listdir(d))[:3]:
                f.write(f"\n--- {q}\n" + open(f"{d}/{q}").read()[-6000:])
    print("failed obligations:")
    for x in unlisted:
        print("  " + x)
    print(found or "")
    print(f"VIOLATION property={prop} replay={rp}" + ("" if found else " no-failing-input-found"))
for k in listed:
    print("KNOWN-FINDING: " + k)

level = C.get("level", "proof")
ev = {
    "property": prop, "tier": tier, "seed": seed, "level": level,
    "coverage": {
        "obligations": obls, "discharged": disc,
        "checker_cmd": " ".join(["govc", "-prop", prop, "-t", str(t)]),
        "functions_under_contract": sorted(set(targets)),
        "functions_inlined_or_used": sorted(funcs),
        "back_ends": backends,
        "solver_s": round(res.get("solver_s", 0), 1),
        "trusted_base": cfg["trusted_base"],
        "explanation": C.get("covers", ""),
    },
    "assumptions": sorted(assumed) + cfg["assumptions"] + C.get("assumptions", []),
    "wall_s": round(time.time() - T0, 1),
    "violations": 1 if (unlisted or found) else 0,
}
if bounded:
    ev["coverage"]["bounded_stand_in"] = bounded
os.makedirs(f"{VERIF}/evidence", exist_ok=True)
json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
print(f"{prop}: {disc}/{obls} obligations discharged, {len(set(targets))} functions under contract, {ev['wall_s']} s")
done(1 if (unlisted or found) else 0)
