"""Runs an MPI check: several mpirun jobs over generated cases, then shrinks failures."""
import json, os, re, struct, subprocess, time, glob
HEAD = struct.Struct("<IiqiI")
CAP = 1 << 17
NPS = {"quick": [4, 3, 4], "thorough": [4, 5, 6]}

def read_state(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < HEAD.size + 4096 + 16384:
        return None
    n, prop, index, status, _ = HEAD.unpack_from(b, 0)
    o = HEAD.size
    cut = lambda x: x.split(b"\0", 1)[0].decode("utf8", "replace")
    msg, text = cut(b[o:o + 4096]), cut(b[o + 4096:o + 20480])
    o += 20480
    ch = list(struct.unpack_from("<%dQ" % n, b, o)) if n else []
    return dict(prop=prop, index=index, status=status, msg=msg, text=text, choices=ch)

def err_tail(prefix, size):
    for r in range(size):
        try:
            s = open("%s.err.%d" % (prefix, r), errors="replace").read()
        except OSError:
            continue
        i = s.find("ERROR: AddressSanitizer")
        if i < 0: i = s.find("runtime error")
        if i < 0: i = s.find("Assertion")
        if i >= 0:
            s = s[max(0, i - 200):]
            j = s.find("Shadow bytes")
            return "rank %d: %s" % (r, s[:j if j > 0 else 3000][:3000])
    return ""

class Job:
    """one mpirun"""
    def __init__(self, exe, np, prefix, args, env, cwd):
        self.np, self.prefix = np, prefix
        for f in glob.glob(prefix + ".*"):
            os.remove(f)
        self.out = open(prefix + ".mpirun", "w")
        cmd = ["mpirun", "--oversubscribe", "-np", str(np), exe, "--prefix", prefix] + args
        self.p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.STDOUT, start_new_session=True)
    def wait(self, limit):
        try:
            self.p.wait(limit)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        return self.p.returncode
    def result(self):
        """None if finished, else dict(kind, msg, text, choices, prop, index); kind 'broken' means no verdict"""
        st = [s for s in (read_state("%s.state.%d" % (self.prefix, r)) for r in range(self.np)) if s]
        if st and all(s["status"] == 2 for s in st) and len(st) == self.np:
            return None
        if any(s["status"] == 7 for s in st) or not st:
            return dict(kind="broken", msg=open(self.prefix + ".mpirun").read()[-2000:] + "".join(open(f).read()[-1500:] for f in glob.glob(self.prefix + ".err.*")))
        pick = [s for s in st if s["status"] == 1]
        if pick:
            return dict(pick[0], kind="failed")
        run = [s for s in st if s["index"] >= 0]
        if not run:
            return dict(kind="broken", msg=open(self.prefix + ".mpirun").read()[-2000:])
        s = max(run, key=lambda s: (s["index"], len(s["choices"])))
        e = err_tail(self.prefix, self.np)
        if not e and any(x["status"] == 3 for x in st):
            return dict(s, kind="hang", msg="HANG: the ranks did not finish in time (deadlock)")
        if self.p.returncode == 0 and not e:
            return dict(kind="broken", msg="job ended early: " + open(self.prefix + ".mpirun").read()[-2000:])
        return dict(s, kind="crash", msg="CRASH: %s\n%s" % (open(self.prefix + ".mpirun").read()[-300:] if not e else "", e))

def run(conf, cid, tier, seed, exe, bdir, VERIF, ENV, extra, replay, verbose, log):
    env = dict(ENV)
    base = bdir + "/mpi"
    nps = conf.get("np", NPS)[tier]
    names = subprocess.run([exe, "--prefix", "-"], env=env, capture_output=True, text=True).stdout.splitlines()
    counter = [0]
    def evaluate(np, name, cands, factor=1.0, limit=200):
        """index and outcome of the first failing candidate"""
        counter[0] += 1
        pre = "%s-c%d" % (base, counter[0])
        with open(pre + "-cand", "w") as f:
            f.write(name + "\n" + "".join(" ".join(map(str, c)) + "\n" for c in cands))
        j = Job(exe, np, pre, ["--candidates", pre + "-cand", "--timeout-factor", str(factor)], env, bdir)
        j.wait(limit)
        r = j.result()
        for f in glob.glob(pre + ".*") + [pre + "-cand"]:
            os.remove(f)
        return r
    if replay:
        name, ch, np = None, [], max(nps)
        for l in open(replay):
            if l.startswith("property "): name = l[9:].rstrip("\n")
            elif l.startswith("np "): np = int(l[3:])
            elif l.startswith("choices"): ch = list(map(int, l[7:].split()))
        if name not in names: return 0, None
        r = evaluate(np, name, [ch])
        if r is None: print("passed"); return 0, None
        print("FAILED\n%s\n%s" % (r["msg"], r.get("text", "")))
        return (2 if r["kind"] == "broken" else 1), None
    cap = conf.get("cap", {"quick": 200, "thorough": 600})[tier]
    scale = conf.get("scale", {}).get(tier, 1)
    t0 = time.time()
    parts = len(nps)
    covs, fails, broken = [], [], 0
    state = [dict(start=0, skip=set(), job=None, n=0) for _ in range(parts)]
    failed_props = set()
    def launch(k):
        s = state[k]
        s["n"] += 1
        a = ["--tier", tier, "--seed", str(seed), "--part", str(k), "--parts", str(parts), "--start", str(s["start"]),
             "--cap", str(max(1, cap - (time.time() - t0))), "--scale", str(scale)] + extra
        for x in sorted(failed_props): a += ["--skip", x]
        s["job"] = Job(exe, nps[k], "%s-j%d-%d" % (base, k, s["n"]), a, env, bdir)
    for k in range(parts): launch(k)
    retries = 0
    while any(s["job"] for s in state):
        time.sleep(0.02)
        for k, s in enumerate(state):
            j = s["job"]
            if not j or (j.p.poll() is None and time.time() - t0 < cap + 120): continue
            if j.p.poll() is None: j.wait(0)
            s["job"] = None
            r = j.result()
            if os.path.exists(j.prefix + ".cov"): covs.append(json.load(open(j.prefix + ".cov")))
            if r is None: continue
            if r["kind"] == "broken":
                retries += 1
                if retries <= 3:
                    launch(k); continue
                print("MPI job broken: " + r["msg"]); broken = 1; continue
            name = names[r["prop"]]
            if name not in failed_props:
                failed_props.add(name)
                fails.append(dict(r, name=name, np=nps[k]))
            s["start"] = r["index"] + 1
            if len(fails) < 8: launch(k)
    tgen = time.time() - t0
    nviol = unstable = 0
    ts = time.time()
    better = lambda a, b: (len(a), a) < (len(b), b)
    for f in fails:
        if nviol and time.time() - ts > 90: 
            print("further failing property not minimised: " + f["name"]); continue
        best, out = f["choices"], None
        again = 0
        for _ in range(3):
            r = evaluate(f["np"], f["name"], [best])
            if r and r["kind"] != "broken": again += 1; out = r
        if again < (1 if f["kind"] == "failed" else 3):
            unstable += 1
            print("UNSTABLE failure of %s (%d/3): %s" % (f["name"], again, f["msg"][:500])); continue
        if again == 3:
            budget = min(45.0, 120.0 / len(fails)); tb = time.time()
            fac = 0.3 if f["kind"] == "hang" else 1.0
            def attempt(cands):
                nonlocal best, out
                cands = [c for c in cands if better(c, best)]
                if not cands or time.time() - tb > budget: return False
                r = evaluate(f["np"], f["name"], cands, fac, max(5, budget))
                if not r or r["kind"] == "broken": return False
                c = list(r["choices"])
                while c and c[-1] == 0: c.pop()
                if not better(c, best): c = cands[r["index"]]
                best, out = c, r
                return True
            progress = True
            while progress and time.time() - tb < budget:
                progress = False
                for chunk in (64, 16, 8, 4, 2, 1):
                    while attempt([best[:i] + best[i + chunk:] for i in range(max(0, len(best) - chunk), -1, -max(1, chunk // 2))][:400]): progress = True
                for chunk in (16, 4, 1):
                    while attempt([best[:i] + [0] * min(chunk, len(best) - i) + best[i + chunk:] for i in range(0, len(best), chunk) if any(best[i:i + chunk])]): progress = True
                while attempt([best[:i] + [v] + best[i + 1:] for i in range(len(best)) for v in {best[i] // 2, best[i] - 1} if 0 < best[i]]): progress = True
            ok = 0
            for _ in range(2):
                r = evaluate(f["np"], f["name"], [best])
                if r and r["kind"] != "broken": ok += 1; out = r
            if ok < 2: best, out = f["choices"], f
        rd = VERIF + "/replays"
        os.makedirs(rd, exist_ok=True)
        path = rd + "/" + cid + "-" + re.sub(r"[^A-Za-z0-9]", "_", f["name"]) + ".replay"
        with open(path, "w") as w:
            w.write("id %s\nproperty %s\nnp %d\nchoices %s\n# message\n" % (cid, f["name"], f["np"], " ".join(map(str, best))))
            for l in (out["msg"] + "\n" + out["text"]).splitlines(): w.write("# " + l + "\n")
        print("FAILED %s\n%s\n%s" % (f["name"], out["msg"][:3000], out["text"][:3000]))
        print("VIOLATION property=%s replay=%s" % (cid, path), flush=True)
        nviol += 1
    per, labels, samples, hashes, rule, trunc = {}, {}, [], set(), "", False
    for c in covs:
        rule = c["rule"]; trunc = trunc or c["truncated_by_time"]; hashes |= set(c["hashes"])
        for k, v in c["per_property"].items():
            d = per.setdefault(k, dict.fromkeys(v, 0))
            for x in v: d[x] += v[x]
        for k, v in c["labels"].items(): labels[k] = labels.get(k, 0) + v
        for s in c["samples"]:
            if not any(x.split(":")[0] == s.split(":")[0] for x in samples): samples.append(s)
    tot = lambda x: sum(d[x] for d in per.values())
    cov = {"evaluations": tot("evaluations"), "distinct_nontrivial": len(hashes), "nontrivial": tot("nontrivial"), "discarded": tot("discarded"),
           "rule": rule, "truncated_by_time": trunc, "unstable": unstable, "generation_s": round(tgen, 2), "violations": nviol,
           "per_property": per, "labels": labels, "samples": samples[:40]}
    print("%s tier=%s seed=%d (MPI %s): %d cases, %d nontrivial, %d distinct, %d discarded, %d violations, %.1f s%s" %
          (cid, tier, seed, nps, cov["evaluations"], cov["nontrivial"], len(hashes), cov["discarded"], nviol, tgen, " (truncated)" if trunc else ""))
    if verbose:
        for k, d in sorted(per.items()): print("  %-40s %s" % (k, d))
        if os.environ.get("PBT_LABELS"):
            for k, v in sorted(labels.items()): print("     %s: %d" % (k, v))
    if broken or not covs: return (1 if nviol else 2), cov
    return (1 if nviol else 0), cov
