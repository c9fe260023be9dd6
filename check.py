#!/usr/bin/env python3
"""Decide one property:  check.py PROPERTY [quick|thorough]

1. vx extracts the functions of /repo's current sources that the property depends on, adds the
   contracts of /verif/specs and writes one Verus crate per unit; Verus discharges the obligations.
2. The oracle crate (built against /repo) runs the real library on generated inputs. It stands in,
   bounded, for what the units leave out, and looks for a concrete input when an obligation fails.
Exit 0: held; 1: VIOLATION; 2: the check itself could not run."""
import json, os, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
CORES = os.cpu_count() or 8
sys.path.insert(0, HERE)
from units import UNITS, PROPS  # noqa: E402
SHAPES = json.load(open(os.path.join(HERE, "specs", "shapes.json")))

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
conf = PROPS[prop]
work = os.path.join(BUILD, "run", prop)
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)


def die(msg):
    print(f"check error: {msg}", file=sys.stderr)
    sys.exit(2)


def cargo(crate, name):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, name))
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, crate), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(BUILD, name, "release", crate)
    return (exe, None) if p.returncode == 0 else (None, p.stdout[-3000:])


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# ------------------------------------------------------------------ the verifier

def verify(unit, vx, threads):
    """one unit: extraction, proof; returns what happened.
    A function whose hints find no place any more is tried without them; one the verifier cannot read
    is taken out (its contract assumed). Either way it counts as undecided, and the rest is still proved."""
    u = UNITS[unit]
    t = time.time()
    r = dict(unit=unit, ok=False, undecided=None, undecided_fns={}, failures=[], verified=0, errors=0, functions=[],
             report={}, smt_ms=0, wall=0.0)
    soft, trust = set(), set()
    for attempt in range(8):
        again = verify_once(u, unit, vx, threads, r, soft, trust, t)
        if not again or time.time() - t > 400:
            break
    r["wall"] = time.time() - t
    for f in trust:
        r["undecided_fns"].setdefault(f, "outside the verifier's reach as it stands")
    keep = []
    for f in r["failures"]:
        if f["function"] in soft:
            r["undecided_fns"][f["function"]] = "its proof hints no longer fit"
        else:
            keep.append(f)
    r["failures"] = keep
    if r["undecided_fns"] and not r["undecided"]:
        r["undecided"] = "; ".join(f"{k}: {v}" for k, v in sorted(r["undecided_fns"].items()))[:3000]
    r["ok"] = not r["undecided"] and not r["failures"] and r["verified"] >= u.get("floor", 1)
    if not r["ok"] and not r["undecided"] and not r["failures"]:
        r["undecided"] = f"only {r['verified']} obligations were generated (expected at least {u.get('floor', 1)})"
    return r


def shape_fits(now, then):
    """the same kinds of loops, no local new in a loop's condition, no new closure"""
    parts = [re.findall(r"([a-z])(\d*)", x) for x in (now, then)]
    loops = [[x for x in p if x[0] != "c"] for p in parts]
    closures = [sum(int(n) for k, n in p if k == "c") for p in parts]
    return len(loops[0]) == len(loops[1]) and closures[0] <= closures[1] and all(
        a[0] == b[0] and int(a[1] or 0) <= int(b[1] or 0) for a, b in zip(*loops))


def verify_once(u, unit, vx, threads, r, soft, trust, t0):
    """one round; True: try again with what `soft` and `trust` have learned"""
    d = os.path.join(work, unit)
    os.makedirs(d, exist_ok=True)
    out, rep = os.path.join(d, unit + ".rs"), os.path.join(d, "report.json")
    if os.path.exists(rep):
        os.remove(rep)
    r.update(undecided=None, failures=[], verified=0, errors=0)
    p = subprocess.run([vx, ",".join(u["overlays"]), REPO, out, rep, "--soft", ",".join(sorted(soft)) or "-",
                        "--trust", ",".join(sorted(trust)) or "-"], cwd=os.path.join(HERE, "specs"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if os.path.exists(rep):
        r["report"] = json.load(open(rep))
        r["functions"] = r["report"].get("functions", [])
    text = open(out).read().split("\n") if os.path.exists(out) else []
    if p.returncode != 0:
        new = set()
        for x in r["report"].get("problems", []):
            m = re.match(r"(?:function |helper |trait method )?`([^`]+)`", x)
            if not m or m.group(1) in soft:
                r["undecided"] = "extraction: " + x
                return False
            new.add(m.group(1))
        if not new:
            r["undecided"] = "extraction: " + p.stdout.strip()[-1500:]
            return False
        soft |= new
        return True
    # loop contracts written for other loops than the ones that are there now decide nothing
    soft |= {f["path"] for f in r["functions"] if not f["external"] and not shape_fits(f["shape"], SHAPES.get(f["path"], ""))}
    for x in r["report"].get("noted", []):
        m = re.match(r"(helper )?`([^`]+)`", x)
        if not m:
            continue
        if "trusted contract" in x:
            r["undecided_fns"][m.group(2)] = x
        if m.group(1):  # a new helper without a contract: its callers cannot be judged
            name = m.group(2).split("::")[-1]
            soft |= {f["path"] for f in r["functions"]
                     if re.search(r"\b" + name + r"\s*\(", "\n".join(text[f["out_start"]:f["out_end"]]))}
    cmd = ["verus", "--edition", "2024", os.path.basename(out), "--rlimit", str(u.get("rlimit", 100)), "--num-threads", str(threads),
           "--multiple-errors", "4", "--output-json", "--time", "--error-format=json"]
    r["cmd"] = " ".join(cmd)
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=max(30, u.get("timeout", 480) - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        r["undecided"] = "the verifier did not finish in time"
        return False
    try:
        j = json.loads(p.stdout)
    except ValueError:
        j = {}
    res = j.get("verification-results", {})
    r["verified"], r["errors"] = res.get("verified", 0), res.get("errors", 0)
    r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
    unread, stuck = set(), []
    for line in p.stderr.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") != "error" or m.get("message", "").startswith("aborting due to"):
            continue
        msg = m["message"]
        spans = m.get("spans", [])
        fn = locate(r["functions"], spans)
        rendered = m.get("rendered") or msg
        if re.search(r"rlimit|Resource limit|timed out", msg):
            r["undecided_fns"][fn["path"] if fn else "?"] = msg
        elif m.get("code") or "verified" not in res or res.get("encountered-vir-error", True) \
                or not (r["verified"] or r["errors"]):
            if fn and fn["path"] not in trust and not fn["external"]:
                unread.add(fn["path"])
            else:
                stuck.append(rendered[:600])
        else:
            r["failures"].append(dict(obligation=msg, function=fn["path"] if fn else "(specification)",
                                      source=f"{fn['file']}:{fn['src_line']}" if fn else "",
                                      props=tags(fn, r["functions"], spans, text, msg, u.get("default", [])), rendered=rendered))
    if unread:
        trust |= unread
        return True
    if stuck:
        r["undecided"] = "; ".join(stuck)[:3000]
    elif not res:
        r["undecided"] = "no result from the verifier: " + (p.stderr or p.stdout)[-1500:]
    elif not r["failures"] and not r["undecided_fns"] and (r["errors"] or not res.get("success")):
        r["undecided"] = f"{r['errors']} obligations not discharged, without a diagnosis"
    return False


def locate(fns, spans):
    """the function whose body or contract the failing obligation belongs to"""
    best = [s for s in spans if not (s.get("label") or "").startswith("failed")] or spans
    for s in sorted(best, key=lambda s: not s["is_primary"]):
        for f in fns:
            if f["out_start"] <= s["line_start"] <= f["out_end"]:
                return f
    return None


def tags(fn, fns, spans, text, msg, default):
    """the properties a failing obligation belongs to: the labels `// P07` on the failing clause;
    else by kind (panics: P06, termination: P05); else the labels of the function and the unit"""
    for s in spans:
        if (s.get("label") or "").startswith("failed") or s["is_primary"]:
            for k in range(s["line_start"] - 1, min(s["line_end"], len(text))):
                t = re.findall(r"//\s*((?:P\d\d[ ,]*)+)", text[k])
                if t:
                    return re.findall(r"P\d\d", " ".join(t))
    if re.search(r"arithmetic|overflow|underflow|index out|division", msg):
        return ["P06"]
    if re.search(r"decreases|termination", msg):
        return ["P05"]
    if msg.startswith("precondition") and not any(s["file_name"].endswith(".rs") and not s["file_name"].startswith("/")
                                                  and (s.get("label") or "").startswith("failed") for s in spans):
        return ["P06"]  # the precondition of a library function
    own = fn["props"] if fn else []
    if not own:  # an implementation of a trait: the labels of the contract in the trait
        for s in spans:
            for f in fns:
                if f["out_start"] <= s["line_start"] <= f["out_end"]:
                    own = own + f["props"]
    return sorted(set(own + default))


# ------------------------------------------------------------------ the oracle

def oracle_run(exe, secs, sd, threads):
    """the bounded stand-in: one search; crashes of the process are traced to their case"""
    d = os.path.join(work, f"oracle.{sd}")
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([exe, "run", prop, str(sd), str(secs), d, str(threads)], preexec_fn=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 60)
        rc, outp = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, outp = -1, "search timed out"
    f = os.path.join(d, "result.json")
    if rc in (0, 1) and os.path.exists(f):
        return json.load(open(f))
    # the process died: run the cases that were under way one by one
    vs = []
    for n in sorted(os.listdir(d)):
        if not n.startswith("cur."):
            continue
        raw = open(os.path.join(d, n), "rb").read()
        if len(raw) < 8:
            continue
        idx = int.from_bytes(raw[:8], "little")
        try:
            q = subprocess.run([exe, "one", prop, str(sd), str(idx)], preexec_fn=limit, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=30)
            how = None if q.returncode in (0, 1) else f"the process died (status {q.returncode}): {q.stdout[-300:]}"
        except subprocess.TimeoutExpired:
            how = "no end after 30 s"
        kind = subprocess.run([exe, "kind", prop, str(sd), str(idx)], stdout=subprocess.PIPE, text=True).stdout.strip()
        if how and (prop in ("P05", "P06") or kind == "document"):
            inp = subprocess.run([exe, "input", prop, str(sd), str(idx)], stdout=subprocess.PIPE, text=True).stdout
            try:
                inp = json.loads(inp)
            except ValueError:
                pass
            vs.append(dict(property=prop, seed=sd, case=idx, input=inp, detail=how))
    return dict(evaluations=0, distinct_nontrivial=0, violations=vs, samples=[], crashed=outp[-500:], wall_s=0)


# ------------------------------------------------------------------ one check

state = {}


def oracle_job(secs):
    exe, err = cargo("oracle", "oracle")
    state["oracle_exe"], state["oracle_err"] = exe, err
    if exe:
        state["oracle"] = oracle_run(exe, secs, seed, CORES)


def main():
    thorough = tier == "thorough"
    secs = conf.get("secs", 40) if not thorough else 420
    th = threading.Thread(target=oracle_job, args=(secs,))
    th.start()
    results = []
    if conf["units"]:
        vx, err = cargo("vx", "vx")
        if not vx:
            th.join()
            die("vx does not build:\n" + err)
        lock = threading.Lock()

        def job(u):
            try:
                r = verify(u, vx, 4)
            except Exception as e:  # never silently fewer units
                import traceback
                traceback.print_exc()
                r = dict(unit=u, ok=False, undecided=f"internal error: {e!r}", undecided_fns={}, failures=[], verified=0, errors=0,
                         functions=[], report={}, smt_ms=0, wall=0.0)
            with lock:
                results.append(r)
        ts = [threading.Thread(target=job, args=(u,)) for u in conf["units"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    th.join()
    if not state.get("oracle_exe"):
        die("the oracle does not build against /repo:\n" + state["oracle_err"])
    orc = state["oracle"]
    results.sort(key=lambda r: conf["units"].index(r["unit"]))
    # a unit that proves one property more (only) over the contracts of another (base): where those
    # contracts themselves fail, its obligations say nothing about that property
    doubt = []
    for r in results:
        u = UNITS[r["unit"]]
        if u.get("only"):
            b = next(x for x in results if x["unit"] == u["base"])
            bad = {f["function"] for f in b["failures"]} | set(b["undecided_fns"])
            for f in r["failures"]:
                f["props"] = [] if b["undecided"] or f["function"] in bad else [u["only"]]
                if not f["props"]:
                    doubt.append(f)
    mine = [f for r in results for f in r["failures"] if prop in f["props"]]
    other = [f for r in results for f in r["failures"] if prop not in f["props"]]
    found = list(orc["violations"])
    searches = [orc]
    # an obligation fails and no input is known yet: search longer, with other seeds
    if (mine or doubt) and not found:
        for k in range(1, 4 if not thorough else 6):
            more = oracle_run(state["oracle_exe"], 60, seed + 1000 * k, CORES)
            searches.append(more)
            found = list(more["violations"])
            if found or time.time() - T0 > 600:
                break
    violation = None
    if found:
        v = found[0]
        path = os.path.join(HERE, "replays", f"{prop}.json")
        json.dump(dict(property=prop, input=v["input"], detail=v["detail"],
                       replay=f"cd {HERE}/oracle && CARGO_TARGET_DIR={BUILD}/oracle cargo run --release --offline -- one {prop} {v['seed']} {v['case']}",
                       failed_obligations=[{k: f[k] for k in ("obligation", "function", "source", "rendered")} for f in mine]),
                  open(path, "w"), indent=1, ensure_ascii=False)
        print(f"input: {json.dumps(v['input'], ensure_ascii=False)[:2000]}")
        print(v["detail"][:3000])
        violation = f"VIOLATION property={prop} replay={path}"
    elif mine:
        path = os.path.join(HERE, "replays", f"{prop}.json")
        json.dump(dict(property=prop, input=None, failed_obligations=[{k: f[k] for k in ("obligation", "function", "source", "rendered")} for f in mine]),
                  open(path, "w"), indent=1, ensure_ascii=False)
        violation = f"VIOLATION property={prop} replay={path} no-failing-input-found"
    for f in mine:
        print(f"failed obligation: {f['obligation']} in {f['function']} ({f['source']})")
    evidence(results, searches, mine, other, 1 if violation else 0)
    if violation:
        print(violation)
        sys.exit(1)
    proved = results and all(r["ok"] for r in results)
    n = sum(r["verified"] for r in results)
    if proved:
        print(f"{prop}: {n} obligations discharged ({', '.join(conf['units'])}); bounded: {sum(s['evaluations'] for s in searches)} evaluations without a failure")
    else:
        why = "; ".join(r["undecided"] or f"{len(r['failures'])} obligations of other properties failed" for r in results if not r["ok"])
        print(f"{prop}: NOT PROVED on this tree ({why[:1500]}); bounded only: {sum(s['evaluations'] for s in searches)} evaluations without a failure")
    sys.exit(0)


def evidence(results, searches, mine, other, nviol):
    fns = [f for r in results for f in r["functions"]]
    contract = [f for f in fns if f.get("has_contract") and not f["external"]]
    trusted = [f for f in fns if f["external"] and not f.get("elsewhere")]
    elsewhere = sorted({f["path"] for f in fns if f.get("elsewhere")})
    assumed, seen = [], set()
    for u in conf["units"]:
        for o in UNITS[u]["overlays"]:
            o = o.lstrip("~")
            if o in seen:
                continue
            seen.add(o)
            s = open(os.path.join(HERE, "specs", o)).read()
            assumed += [f"{o}: {m}" for m in re.findall(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", s)]
            assumed += [f"{o}: external_body {m}" for m in re.findall(r"external_body\)?\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+|uninterp\s+)?(?:fn|struct)\s+(\w+)", s)]
            assumed += [f"{o}: axiom {m}" for m in re.findall(r"axiom fn (\w+)", s)]
    rules = {}
    for r in results:
        for k, v in r["report"].get("edits_by_rule", {}).items():
            rules[k] = rules.get(k, 0) + v
    undecided = {r["unit"]: r["undecided"] for r in results if r["undecided"]}
    cov = dict(
        obligations=sum(r["verified"] + max(r["errors"], len(r["failures"])) for r in results),
        discharged=sum(r["verified"] for r in results),
        checker_cmd="; ".join(r.get("cmd", "") for r in results) or "none",
        back_end="Verus 0.2026.09.13 with its bundled Z3",
        trusted_base=["Verus, Z3 and rustc", "the extractor /verif/vx (what it changed in the text is counted under extraction)"]
                     + [f"trusted body: {f['path']} ({f['file']})" for f in trusted] + assumed,
        functions_under_contract=[f["path"] for f in contract if prop in f["props"] or not f["props"]] and
                                 sorted({f["path"] for f in contract}),
        functions_carrying_this_property=sorted({f["path"] for f in contract if prop in f["props"]}),
        functions_trusted=sorted({f["path"] for f in trusted}),
        contracts_used_and_proved_in_another_unit=elsewhere,
        solver_ms=sum(r["smt_ms"] for r in results),
        units=[dict(unit=r["unit"], verified=r["verified"], errors=r["errors"], wall_s=round(r["wall"], 1), proved=r["ok"]) for r in results],
        extraction=dict(edits_by_rule=rules, dropped=[x for r in results for x in r["report"].get("dropped", [])]),
        proved_on_this_tree=bool(results) and all(r["ok"] for r in results),
        undecided=undecided,
        failed_obligations=[f"{f['function']}: {f['obligation']}" for f in mine],
        failed_obligations_of_other_properties=[f"{f['function']}: {f['obligation']} ({','.join(f['props'])})" for f in other],
        bounded_stand_in=dict(
            label="bounded: not counted as proved", evaluations=sum(s["evaluations"] for s in searches),
            distinct_nontrivial=sum(s["distinct_nontrivial"] for s in searches), rule=conf["rule"],
            samples=[x[:400] for s in searches for x in s["samples"]][:6]),
    )
    ev = dict(property=prop, tier="thorough" if tier == "thorough" else "quick", seed=seed, level="proof", coverage=cov,
              assumptions=conf["assumptions"], wall_s=round(time.time() - T0, 1), violations=nviol)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, ensure_ascii=False)


main()
