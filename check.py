"""Check of one property: (1) deductive: every contract of the property is re-verified from /repo's current
source; (2) failed obligations are replayed on the real code; (3) bounded stand-in / cross-check.
usage: python3-vt check.py C01 [--tier quick|thorough]"""
import os
import sys
import json
import time
import subprocess
import multiprocessing as mp
import resource
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import warnings
warnings.simplefilter("ignore")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def worker(prop, key, pt, budget, out):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(12000)
    import threading
    threading.stack_size(512 << 20)
    res = {}

    def body():
        try:
            import vc
            import solve
            vc.load_contracts([prop])
            c = [c for c in vc.CONTRACTS[prop] if c["key"] == key][0]
            r = vc.run_contract(c, pt, budget)
            obls = [dict(name=o.name, status=o.status, paths=o.paths, backends=sorted(o.backends), exact=o.exact,
                         note=(o.notes[0][:1500] if o.notes else ""), time=round(o.time, 3)) for o in r["obls"].values()]
            res.update(dict(key=key, obls=obls, paths=r["paths"], error=r["error"], time=r["time"], notes=r["notes"], stats=dict(solve.STATS)))
        except BaseException as e:
            res.update(dict(key=key, obls=[], paths=0, error="engine: %s: %s" % (type(e).__name__, str(e)[:300]), time=0, notes=[], stats={}))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    out.send(res)
    out.close()


def run_contracts(prop, contracts, jobs, pt, factor):
    pend = sorted(contracts, key=lambda c: -c["timeout"])
    live, done = [], []
    ctx = mp.get_context("fork")
    while pend or live:
        while pend and len(live) < jobs:
            c = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(prop, c["key"], pt, c["timeout"] * factor, b))
            p.start()
            b.close()
            live.append((c, p, a, time.time()))
        nl = []
        for c, p, a, t in live:
            if a.poll(0.05):
                try:
                    done.append(a.recv())
                except EOFError:
                    done.append(dict(key=c["key"], obls=[], paths=0, error="worker died", time=time.time() - t, notes=[], stats={}))
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                done.append(dict(key=c["key"], obls=[], paths=0, error="worker died", time=time.time() - t, notes=[], stats={}))
            elif time.time() - t > 2 * c["timeout"] * factor + 30:
                p.kill()
                done.append(dict(key=c["key"], obls=[], paths=0, error="time budget exhausted (killed)", time=time.time() - t, notes=[], stats={}))
            else:
                nl.append((c, p, a, t))
        live = nl
    return done


def start_exec(prop, budget, start, stride, keys="", seed=SEED):
    env = dict(os.environ)
    cmd = [os.path.join(HERE, "px.sh"), os.path.join(HERE, "exec", "harness.py"), prop, "--seed", str(seed), "--budget", str(budget), "--start", str(start), "--stride", str(stride)]
    if keys:
        cmd += ["--keys", keys]
    # the code under test runs in a scratch directory
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=SCRATCH, env=env)


def end_exec(p, timeout):
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
    for l in o.splitlines():
        if l.startswith("RESULT "):
            return json.loads(l[7:]), None
    return None, (e or o)[-1500:]


def regress(r, was):
    """obligations that hold on the unchanged tree and fail now"""
    if not was:
        return [], None
    bad = [o for o in r["obls"] if o["status"] != "proved" and was.get(o["name"], "" if was.get("__error__") else "proved") == "proved"]
    return bad, (r["error"] if r["error"] and not was.get("__error__") else None)


def main():
    global SCRATCH
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--update-expected", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    SCRATCH = tempfile.mkdtemp(prefix="vccheck")
    try:
        rc = run(prop, tier, a, t0)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, a, t0):
    quick = tier != "thorough"
    exec_file = [f for f in os.listdir(os.path.join(HERE, "exec")) if f.startswith(prop)]
    nex = 2 if quick else 3
    eb = 25 if quick else 240
    procs = [start_exec(prop, eb, i, nex) for i in range(nex)] if exec_file else []
    import vc
    vc.load_contracts([prop])
    contracts = vc.CONTRACTS.get(prop, [])
    res = run_contracts(prop, contracts, 6, 10000 if quick else 60000, 1 if quick else 4)
    fails, stats, errs = [], {}, []
    for p in procs:
        r, e = end_exec(p, eb * 3 + 400)
        if r is None:
            errs.append(e)
            continue
        fails += r["fails"]
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
    if procs and errs and len(errs) == len(procs):
        # the executable contracts could not even be loaded: the code under contract does not import
        print("cross-check could not run: %s" % errs[0])
        fails.append(dict(key="import", seed=SEED, iteration=None, message="code under contract cannot be imported: " + errs[0][-400:]))
    exp_path = os.path.join(HERE, "expected", prop + ".json")
    expected = json.load(open(exp_path)) if os.path.exists(exp_path) else {}
    proved, open_, lost = [], [], []
    byc = {c["key"]: c for c in contracts}
    now = {}
    for r in sorted(res, key=lambda r: r["key"]):
        for o in r["obls"]:
            k = r["key"] + "/" + o["name"]
            now[k] = o["status"]
            (proved if o["status"] == "proved" and not r["error"] else open_).append((k, r["key"], o))
        if r["error"]:
            now[r["key"]] = r["error"]
        was = expected.get(r["key"], {})
        bad, err = regress(r, was)
        if bad or err:
            lost.append((r["key"], bad, err))
    if a.update_expected:
        os.makedirs(os.path.dirname(exp_path), exist_ok=True)
        d = {}
        for r in sorted(res, key=lambda r: r["key"]):
            d[r["key"]] = {o["name"]: o["status"] for o in r["obls"]}
            d[r["key"]]["__time__"] = round(r["time"], 1)
            if r["error"]:
                d[r["key"]]["__error__"] = r["error"]
        json.dump(d, open(exp_path, "w"), indent=1, sort_keys=True)
    # ---- replay failed obligations on the real code: deeper search of their executable contract
    deep = {}
    if lost and exec_file and not fails:
        keys = ",".join(sorted(set(byc[k]["replay"] for k, _, _ in lost)))
        budget = min(300 if quick else 600, max(60, 780 - (time.time() - t0) if quick else 600))
        ps = [start_exec(prop, budget / 2, 100000 + i, 6, keys, SEED) for i in range(6)]
        for p in ps:
            r, e = end_exec(p, budget * 2 + 100)
            if r:
                fails += r["fails"]
                for k, n in r["stats"].items():
                    stats[k] = stats.get(k, 0) + n
                    deep[k] = deep.get(k, 0) + n
    # ---- known findings
    known = []
    kf = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(kf):
        for l in open(kf):
            if l.strip():
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    known.append(d)
    real, seen_known = [], set()
    for f in fails:
        m = [d for d in known if d["key"] == f["key"] and d["match"] in f["message"]]
        if m:
            seen_known.add(m[0]["what"])
        else:
            real.append(f)
    for d in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    lostnames = ["%s/%s" % (k, o["name"]) for k, bad, e in lost for o in bad] + ["%s (%s)" % (k, e) for k, bad, e in lost if e and not bad]
    if real:
        f = real[0]
        path = os.path.join(rdir, "%s_%s.json" % (prop, f["key"].replace("/", "_")))
        fo = ["%s/%s" % (k, o["name"]) for k, bad, e in lost if byc[k]["replay"] == f["key"] for o in bad] or lostnames
        notes = {"%s/%s" % (k, o["name"]): dict(status=o["status"], verifier=o["note"]) for k, bad, e in lost for o in bad}
        json.dump(dict(property=prop, key=f["key"], seed=f["seed"], iteration=f["iteration"], message=f["message"], failed_obligations=fo, verifier_output=notes,
                       replay_cmd="./px.sh exec/harness.py %s --replay %s" % (prop, os.path.relpath(path, HERE))), open(path, "w"), indent=1)
        print("failed obligations: %s" % (", ".join(fo) if fo else "(executable postcondition only)"))
        print("failing input (%s, seed %s, iteration %s): %s" % (f["key"], f["seed"], f["iteration"], f["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        nviol = len(real)
    else:
        ex = []
        cand = [k for k, bad, e in lost if bad and expected[k].get("__time__", 99) < byc[k]["timeout"] / 4]
        if cand:
            # second attempt with a longer solver limit before an unproved obligation is called a violation
            again = run_contracts(prop, [byc[k] for k in cand], 6, 30000, min(1.5, max(0.5, (820 - (time.time() - t0)) / 130)))
            for r in again:
                bad, err = regress(r, expected.get(r["key"], {}))
                ex += [(r["key"], o) for o in bad]
        if ex:
            path = os.path.join(rdir, "%s_obligation.json" % prop)
            json.dump(dict(property=prop, failed_obligations=["%s/%s" % (k, o["name"]) for k, o in ex],
                           verifier_output={"%s/%s" % (k, o["name"]): o["note"] for k, o in ex}, key=byc[ex[0][0]]["replay"], seed=SEED, iteration=None), open(path, "w"), indent=1)
            print("obligations that fail on this tree: %s" % ", ".join("%s/%s" % (k, o["name"]) for k, o in ex))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
            nviol = len(ex)
    undecided = [n for n in lostnames] if not nviol else []
    if undecided:
        print("undecided on this tree (decided by the bounded stand-in): %s" % ", ".join(undecided[:20]))
    # ---- evidence
    import vcmeta
    fn = sorted(set(t for c in contracts for t in c["targets"]))
    fproved = sorted(set(t for c in contracts for t in c["targets"] if any(r["key"] == c["key"] and not r["error"] and r["obls"] and all(o["status"] == "proved" for o in r["obls"]) for r in res)))
    back = {}
    for k, _, o in proved:
        for b in o["backends"]:
            back[b] = back.get(b, 0) + 1
    st = {}
    for r in res:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    level = vcmeta.level(prop)
    open_list = [dict(obligation=k, status=o["status"], stand_in=byc[ck]["replay"]) for k, ck, o in open_] + [dict(contract=r["key"], error=r["error"], stand_in=byc[r["key"]]["replay"]) for r in res if r["error"]]
    cov = dict(obligations=len(proved) + len([1 for x in open_list if "obligation" in x and x["obligation"] in lostnames]), discharged=len(proved),
               checker_cmd="python3-vt check.py %s --tier %s" % (prop, tier),
               trusted_base=vcmeta.TRUSTED,
               functions_under_contract=fn, functions_fully_discharged=fproved,
               obligations_by_backend=back, solver_seconds=round(st.get("time", 0), 2), solver_queries=st.get("queries", 0),
               paths_explored=sum(r["paths"] for r in res),
               contracts=[dict(contract=r["key"], paths=r["paths"], proved=sum(o["status"] == "proved" for o in r["obls"]), obligations=len(r["obls"]), seconds=round(r["time"], 1), error=r["error"]) for r in res],
               bounded_stand_ins=dict(note="not counted as proved; random inputs of the stated executable contract on the real code, bound = number of evaluations", open_obligations=open_list),
               evaluations=sum(stats.values()), distinct_nontrivial=sum(stats.values()),
               rule="seeded random inputs (sizes 0..40 and constants of the code under contract) of each executable contract; every evaluation runs the real code and its postcondition; seeds differ by iteration",
               samples=[dict(contract=k, evaluations=n, replay="seed %d iteration 0" % SEED) for k, n in sorted(stats.items())][:40],
               explanation=vcmeta.EXPLAIN)
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=vcmeta.assumptions(prop) + sorted(set(n for r in res for n in r["notes"])), wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d contracts, %d obligations proved, %d open, %d lost; %d concrete evaluations; %.1f s" % (prop, len(contracts), len(proved), len(open_), len(lostnames), sum(stats.values()), time.time() - t0))
    return 1 if nviol else 0


if __name__ == "__main__":
    main()
