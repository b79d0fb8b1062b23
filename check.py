#!/usr/bin/env python3
"""Run the check of one property:  check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
   Replay a saved failing plan:    check.py --replay FILE [property]
   Build everything (setup):       check.py --setup
Exit 0: held on everything explored. 1: VIOLATION printed. 2: no answer (error of the check)."""
import resource
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

GOENV = dict(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1",
             GOFLAGS_="", GOWORK="off", CGO_ENABLED="1")


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOENV)
    return e


def die(msg, code=2):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(code)


def build(pid, outdir):
    pkg = PROPS[pid].get("pkg", pid.lower())
    md = os.path.join(outdir, "mod")
    os.makedirs(md, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, f), os.path.join(md, f))
    out = os.path.join(outdir, pkg + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(md, "go.mod"), "-o", out, "./" + pkg]
    p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("build of %s failed:\n%s" % (pkg, p.stdout[-4000:]))
    extra = PROPS[pid].get("extra_build")
    if extra:  # e.g. the veri command itself
        for target, dst in extra:
            p = subprocess.run(["go", "build", "-modfile=" + os.path.join(md, "go.mod"), "-o", os.path.join(outdir, dst), target],
                               cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                die("build of %s failed:\n%s" % (target, p.stdout[-4000:]))
    return out


class Worker:
    def __init__(self, pid, binary, root, idx, n, seed, tier, budget, replay=None, corpus=None, quiet=True):
        self.dir = os.path.join(root, "w%s" % idx)
        os.makedirs(self.dir, exist_ok=True)
        self.scratch = os.path.join(self.dir, "s")
        os.makedirs(self.scratch, exist_ok=True)
        os.makedirs(os.path.join(self.dir, "tmp"), exist_ok=True)
        self.out = os.path.join(self.dir, "out.json")
        self.log = os.path.join(self.dir, "log")
        self.err = os.path.join(self.dir, "err")
        for f in (self.out,):
            if os.path.exists(f):
                os.unlink(f)
        p = PROPS[pid]
        env = dict(os.environ)
        env.update(VK_OUT=self.out, VK_SCRATCH=self.scratch, VK_WORKER=str(idx if isinstance(idx, int) else 0),
                   VK_WORKERS=str(n), VK_SEED=str(seed), VK_TIER=tier, VK_BUDGET=str(int(budget)),
                   TMPDIR=os.path.join(self.dir, "tmp"), GODEBUG="randseednop=0", GOTRACEBACK="all",
                   HOME=self.dir, VK_BIN=os.path.dirname(binary))
        if replay:
            env["VK_REPLAY"] = replay
        if corpus:
            env["VK_CORPUS"] = corpus
        if p.get("gomaxprocs"):
            env["GOMAXPROCS"] = str(p["gomaxprocs"])
        kw = {}
        if p.get("unprivileged") and os.geteuid() == 0:
            for d, _, fs in os.walk(self.dir):
                os.chown(d, 65534, 65534)
                for f in fs:
                    os.chown(os.path.join(d, f), 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[])
        lim = int(p.get("memory", 12 << 30))
        kw["preexec_fn"] = lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        self.fo = open(self.log, "wb")
        self.fe = open(self.err, "wb")
        self.p = subprocess.Popen([binary, "-test.run", "^TestProperty$", "-test.timeout", "0"], cwd=self.scratch, env=env,
                                  stdout=self.fo, stderr=self.fe, stdin=subprocess.DEVNULL, start_new_session=True, **kw)
        self.start = time.time()
        self.last_cur = None
        self.cur_since = time.time()
        self.hung = False

    def cur(self):
        """the plan being executed: (sub, plan-json) or None"""
        try:
            with open(os.path.join(self.scratch, "cur.json"), "rb") as f:
                b = f.read()
        except OSError:
            return None
        i = b.find(b"\n")
        if i < 0:
            return None
        n, name = b[:i].split(b" ", 1)
        n = int(n)
        if n == 0:
            return None
        return name.decode(), b[i + 1:i + 1 + n].decode()

    def poll(self, stall):
        rc = self.p.poll()
        if rc is not None:
            return rc
        c = self.cur()
        if c != self.last_cur:
            self.last_cur = c
            self.cur_since = time.time()
        elif time.time() - self.cur_since > stall:
            self.hung = True
            try:
                os.kill(self.p.pid, signal.SIGQUIT)
                self.p.wait(10)
            except Exception:
                pass
            self.kill()
            return self.p.poll() if self.p.poll() is not None else -9
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass

    def close(self):
        self.kill()
        self.fo.close()
        self.fe.close()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def errtext(self):
        with open(self.err, "rb") as f:
            t = f.read()[-2000000:].decode(errors="replace")
        with open(self.log, "rb") as f:
            t += f.read()[-2000000:].decode(errors="replace")
        return t


def crash_kind(text):
    """None if the process did not die in veri code, else a short description."""
    if "out of memory" in text or "cannot allocate memory" in text:
        # no memory left is nobody's fault, unless one single allocation of veri is enormous
        big = re.search(r"cannot allocate (\d{10,})-byte block", text)
        if not big or int(big.group(1)) < 2 << 30:
            return None
    m = re.search(r"^(panic: .*|fatal error: .*|SIGSEGV.*|unexpected fault address.*|terminate called.*|.*double free.*|.*free\(\): .*|.*malloc.*corrupt.*|munmap_chunk.*)$", text, re.M)
    if not m:
        return None
    head = m.group(1)
    rest = text[m.start():]
    # the goroutine that crashed is the first one in the trace
    g = re.search(r"^goroutine \d+.*?(?=^goroutine \d+|\Z)", rest, re.M | re.S)
    first = g.group(0) if g else ""
    frames = [l for l in first.split("\n") if re.match(r"^[A-Za-z_]\S*\(", l) or l.startswith("created by")]
    for l in frames:
        if "bgokden/veri" in l:
            return "process crash: " + head[:200] + " in " + l.strip()[:160]
        if l.startswith("vharness/"):
            return None
    if head.startswith("fatal error: concurrent map") and "bgokden/veri" in rest:
        return "process crash: " + head
    if not frames and ("double free" in head or "free()" in head or "SIGSEGV" in head or "malloc" in head):
        return "process crash: " + head
    return None


def hang_kind(text):
    """Where a stalled process is stuck, if that is inside veri code."""
    gs = re.findall(r"^goroutine \d+.*?(?=^goroutine \d+|\Z)", text, re.M | re.S)
    for g in gs:
        head = g.split("\n", 1)[0]
        m = re.search(r"^(github.com/bgokden/veri\S*)\(", g, re.M)
        if m and re.search(r"\[(running|runnable|sync\.|semacquire|chan |select)", head):
            return "stuck in %s %s" % (m.group(1), head[head.find("["):])
    return None


def deadlock_kind(text):
    """veri code that waited for a lock of its own for a minute or longer"""
    for g in re.findall(r"^goroutine \d+.*?(?=^goroutine \d+|\Z)", text, re.M | re.S):
        head = g.split("\n", 1)[0]
        if not re.search(r"\[sync\.(RW)?Mutex\.R?Lock, \d+ minutes\]", head):
            continue
        m = re.search(r"^(github.com/bgokden/veri\S*)\(", g, re.M)
        if m:
            return "stuck in %s %s" % (m.group(1), head[head.find("["):])
    return None


def replay_once(pid, binary, root, plan, tag, timeout):
    f = os.path.join(root, "replay-%s.json" % tag)
    with open(f, "w") as fh:
        json.dump(plan, fh)
    os.chmod(f, 0o644)
    d = os.path.join(root, "wr" + tag)
    shutil.rmtree(d, ignore_errors=True)
    w = Worker(pid, binary, root, "r" + tag, 1, 1, "quick", timeout, replay=f)
    while True:
        rc = w.poll(timeout)
        if rc is not None:
            break
        time.sleep(0.02)
    w.close()
    r = w.result()
    text = w.errtext()
    shutil.rmtree(d, ignore_errors=True)
    if r and r.get("failures"):
        return r["failures"][0]["kind"], r["failures"][0]["detail"]
    if r and r.get("done"):
        if r.get("harness_error"):
            return "harness", r["harness_error"]
        return None, ""
    if w.hung:
        return ("hang" if hang_kind(text) else "harness"), (hang_kind(text) or "stalled")
    ck = crash_kind(text)
    if ck:
        return "crash", ck + "\n" + text[:3000]
    return "harness", "process ended %s: %s" % (rc, text[-2000:])


def ddmin(pid, binary, root, plan, kind, limit_s, timeout):
    """Shrink the JSON plan of a crashing case: drop list elements, halve numbers, while it still crashes."""
    end = time.time() + limit_s
    best = json.loads(json.dumps(plan))

    def paths(x, pre=()):
        if isinstance(x, list):
            yield pre
            for i, v in enumerate(x):
                yield from paths(v, pre + (i,))
        elif isinstance(x, dict):
            for k, v in x.items():
                yield from paths(v, pre + (k,))

    def get(x, p):
        for k in p:
            x = x[k]
        return x

    changed = True
    while changed and time.time() < end:
        changed = False
        for p in sorted(paths(best["plan"]), key=len):
            try:
                lst = get(best["plan"], p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(get(best["plan"], p)) and time.time() < end:
                    cand = json.loads(json.dumps(best))
                    del get(cand["plan"], p)[i:i + size]
                    k, _ = replay_once(pid, binary, root, cand, "d", timeout)
                    if k == kind:
                        best = cand
                        changed = True
                    else:
                        i += size
                size //= 2
    return best


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d.get("property") == pid:
                    out.append(d)
    return out


def save_replay(pid, fail):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=pid, sub=fail["sub"], kind=fail["kind"], detail=fail["detail"], plan=fail["plan"])
    h = hashlib.sha1(json.dumps(d["plan"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(EVID, "replay-%s-%s-%s.json" % (pid, fail["sub"], h))
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def matches_known(kf, fail):
    return kf.get("sub") == fail["sub"] and kf.get("kind") == fail["kind"] and re.search(kf.get("match", ""), fail["detail"] or "")


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        out = tempfile.mkdtemp(prefix="vsetup-")
        try:
            for pid in PROPS:
                build(pid, out)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        print("setup ok")
        return 0
    replay = None
    if args and args[0] == "--replay":
        replay = os.path.abspath(args[1])
        pid = json.load(open(replay))["property"]
    else:
        if not args or args[0] not in PROPS:
            die("usage: check.py ID")
        pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(args) > 1 and args[1] in ("quick", "thorough"):
        tier = args[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    root = tempfile.mkdtemp(prefix="vk-%s-" % pid)
    os.chmod(root, 0o755)
    workers = []
    try:
        return run(pid, tier, seed, root, workers, replay, t0)
    finally:
        for w in workers:
            w.close()
        shutil.rmtree(root, ignore_errors=True)


def run(pid, tier, seed, root, workers, replay, t0):
    p = PROPS[pid]
    binary = build(pid, root)
    os.chmod(binary, 0o755)
    if replay:
        plan = json.load(open(replay))
        for _ in range(3):
            k, d = replay_once(pid, binary, root, plan, "x", 120)
            if k == "harness":
                die(d)
            if k:
                print("reproduced:", k, d)
                print("VIOLATION property=%s replay=%s" % (pid, replay))
                return 1
        print("replay passes")
        return 0
    nw = p.get("workers", 6)
    budget = p.get("budget_thorough", 420) if tier == "thorough" else p.get("budget", 45)
    stall = p.get("stall", 90)
    corpus = os.path.join(HARNESS, p.get("pkg", pid.lower()), "corpus")
    croot = None
    if os.path.isdir(corpus):
        croot = os.path.join(root, "corpus")
        shutil.copytree(corpus, croot)
    # replay committed plans of former findings first, then the search
    for i in range(nw):
        workers.append(Worker(pid, binary, root, i, nw, seed, tier, budget, corpus=croot))
    hard = time.time() + budget + 400
    failures, errors, crashes, notes = [], [], [], []
    live = list(workers)
    while live:
        for w in list(live):
            rc = w.poll(stall)
            if rc is None:
                if time.time() > hard:
                    w.kill()
                    live.remove(w)
                    errors.append("worker exceeded its time")
                continue
            live.remove(w)
            r = w.result()
            if r is not None and r.get("failures"):
                failures.extend(r["failures"])
            if r is not None and r.get("done"):
                if r.get("harness_error"):
                    errors.append(r["harness_error"])
            else:
                crashes.append((w, rc))
        time.sleep(0.02)
    for w, rc in crashes:
        cur = w.cur()
        text = w.errtext()
        if failures and any(True for _ in failures):
            break
        if cur is None:
            errors.append("worker ended (%s) outside a case: %s" % (rc, text[-1500:]))
            continue
        plan = dict(sub=cur[0], plan=json.loads(cur[1]))
        if not w.hung and crash_kind(text) is None:
            errors.append("worker ended (%s): %s" % (rc, text[:1500]))
            continue
        tmo = stall if w.hung else 60
        k = d = None
        for a in range(4):
            k, d = replay_once(pid, binary, root, plan, "c", tmo)
            if k:
                break
        if k in ("crash", "hang"):
            small = ddmin(pid, binary, root, plan, k, 40, tmo) if k == "crash" else plan
            failures.append(dict(sub=plan["sub"], kind=k, detail=d, plan=small["plan"]))
        elif k not in (None, "harness"):
            failures.append(dict(sub=plan["sub"], kind=k, detail=d, plan=plan["plan"]))
        elif not w.hung:
            # a crash inside veri code that needs its schedule: the crash itself was observed
            failures.append(dict(sub=plan["sub"], kind="crash", detail=crash_kind(text) + " (schedule dependent)\n" + text[:3000], plan=plan["plan"]))
        else:
            dl = deadlock_kind(text)
            if dl:
                failures.append(dict(sub=plan["sub"], kind="hang", detail=dl + " (schedule dependent)", plan=plan["plan"]))
            else:
                # slow machine: neither reproducible nor a visible deadlock; the case is not counted
                notes.append("a case took more than %d s once and ended in time when repeated: %s" % (stall, hang_kind(text) or ""))
    # merge coverage
    evals = skipped = 0
    nontriv = set()
    labels, samples, per = {}, [], {}
    for w in workers:
        r = w.result()
        if not r:
            continue
        for name, s in r["subs"].items():
            evals += s["evaluations"]
            skipped += s.get("skipped") or 0
            for h in s.get("hashes") or []:
                nontriv.add(name + ":" + h)
            q = per.setdefault(name, dict(evaluations=0, labels={}))
            q["evaluations"] += s["evaluations"]
            for k, v in (s.get("labels") or {}).items():
                q["labels"][k] = q["labels"].get(k, 0) + v
            have = sum(1 for x in samples if x["sub"] == name)
            for sm in (s.get("samples") or [])[:max(0, 2 - have)]:
                samples.append(dict(sub=name, plan=sm))
    for name, q in per.items():
        q["distinct_nontrivial"] = sum(1 for h in nontriv if h.startswith(name + ":"))
    kfs = known_findings(pid)
    viol, known = [], []
    for f in failures:
        m = [k for k in kfs if matches_known(k, f)]
        (known if m else viol).append((f, m))
    ev = dict(property=pid, tier=tier, seed=seed, level=p.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=p["rule"], samples=samples[:8],
                            subchecks=per, not_run_for_lack_of_time=skipped, workers=nw, notes=notes),
              assumptions=p.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for k in kfs:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d not run, %.1fs" %
          (pid, tier, seed, evals, len(nontriv), skipped, time.time() - t0))
    for n, q in per.items():
        print("  %-14s %6d cases %6d nontrivial  %s" % (n, q["evaluations"], q["distinct_nontrivial"],
                                                       " ".join("%s=%d" % kv for kv in sorted(q["labels"].items()))))
    for n in notes:
        print("  note: " + n)
    if viol:
        seen = set()
        for f, _ in viol:
            key = (f["sub"], f["kind"])
            if key in seen:
                continue
            seen.add(key)
            path = save_replay(pid, f)
            print("---- %s/%s: %s" % (f["sub"], f["kind"], (f["detail"] or "")[:1000]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        die("; ".join(errors)[:6000])
    if evals == 0:
        die("nothing was evaluated")
    return 0


if __name__ == "__main__":
    sys.exit(main())
