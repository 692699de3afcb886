"""corpus.py [-k REGEX] [bugs|benign|all] : planted edits, bugs that must be reported and harmless ones that must not.
Edits live in tools/corpus/*.py as BUGS / BENIGN lists of (name, properties, [(file, old, new), ...])."""
import sys, os, re, glob, subprocess, shutil, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pat = None
args = sys.argv[1:]
if "-k" in args:
    i = args.index("-k"); pat = re.compile(args[i + 1]); del args[i:i + 2]
what = args[0] if args else "all"
only = [a for a in args[1:]]
J = int(os.environ.get("J", "5"))
work = []
for f in sorted(glob.glob(V + "/tools/corpus/*.py")):
    if only and os.path.basename(f)[:-3] not in only:
        continue
    ns = {}
    exec(open(f).read(), ns)
    for kind in ("BUGS", "BENIGN"):
        if what != "all" and what != kind.lower():
            continue
        for name, props, edits in ns.get(kind, []):
            if pat is None or pat.search(name):
                work.append((kind, name, props, edits))
q = queue.Queue()
for w in work:
    q.put(w)
lock = threading.Lock()
res = {"ok": 0, "bad": 0}

def one(slot):
    root = "/tmp/corpus%s/%d" % (os.environ.get("C", ""), slot)
    while True:
        try:
            kind, name, props, edits = q.get_nowait()
        except queue.Empty:
            return
        repo = root + "/repo"
        os.makedirs(root, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"], check=True) if shutil.which("rsync") else None
        if not shutil.which("rsync"):
            subprocess.run("rm -rf %s; mkdir -p %s; cd /repo && tar cf - --exclude=./target --exclude=./.git . | (cd %s && tar xf -)" % (repo, repo, repo), shell=True, check=True)
        err = None
        for file, old, new in edits:
            p = os.path.join(repo, file)
            s = open(p).read()
            if s.count(old) < 1:
                err = "EDIT DOES NOT APPLY: %s %r" % (file, old[:60]); break
            open(p, "w").write(s.replace(old, new, 1))
        if err is None:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=root + "/build")
            ids = list(props) if props else os.environ.get("ONLY", "").split()
            try:
                r = subprocess.run([sys.executable, V + "/tools/multi.py"] + ids, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                out = r.stdout
            except subprocess.TimeoutExpired as x:
                out = (x.stdout.decode() if x.stdout else "") + "\nDUMPFAIL timeout"
        else:
            out = err
        lines = out.splitlines()
        viol = [l for l in lines if l.startswith("VIOL")]
        und = [l for l in lines if l.startswith("UNDEC")]
        done = {l.split()[1] for l in lines if l.startswith("DONE")}
        with lock:
            if not done or err or "DUMPFAIL" in out:
                res["bad"] += 1
                print("??  %-8s %s\n%s" % (kind, name, "\n".join(lines[-14:])))
            elif kind == "BUGS":
                hit = {l.split()[1] for l in viol}
                miss = [p for p in props if p not in hit]
                if miss:
                    res["bad"] += 1
                    print("MISS     %-40s not reported by %s" % (name, " ".join(miss)))
                    for l in und[:4]: print("      ", l[:300])
                else:
                    res["ok"] += 1
                    print("caught   %-40s %s" % (name, "; ".join(sorted({" ".join(l.split()[1:3]) for l in viol}))[:120]))
            else:
                if viol:
                    res["bad"] += 1
                    print("ALARM    %s" % name)
                    for l in viol[:6]: print("      ", l[:420])
                else:
                    res["ok"] += 1
                    print("quiet    %-40s %s" % (name, ("undecided: " + "; ".join(sorted({" ".join(l.split()[1:3]) for l in und})))[:200] if und else ""))
            sys.stdout.flush()

ts = [threading.Thread(target=one, args=(i,)) for i in range(J)]
for t in ts: t.start()
for t in ts: t.join()
print(res)
sys.exit(1 if res["bad"] else 0)
