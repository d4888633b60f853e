"""Systematic small changes of the code under test, to look for gaps in the checks (development only).

python3 tools/mutants.py REPO OUT SAMPLE SEED [DIR ...]
Every sampled mutant that builds and passes the repository's tests is given to the checks of its area;
OUT gets one JSON line per mutant: caught (by which check), survived, tests (caught by the tests), build.
"""
import collections, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, OUT, SAMPLE, SEED = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
DIRS = sys.argv[5:]
AREA = {"dbml": ["C18"], "quickdbd": ["C18"], "plantuml": ["C18"], "graphql": ["C19"], "protobuf": ["C19"], "gorm": ["C20"], "jpa": ["C21"], "sqlalchemy": ["C22"],
        "xlsx": ["C12"], "liquibase": ["C15"], "diff": ["C15", "C16", "C17"], "mysql": ["C13", "C16"], "ojson": ["C13"], "staruml": ["C13"],
        "common": ["C19", "C20", "C21", "C22"], "octopus": ["C12", "C13", "C15", "C16", "C17", "C18", "C20", "C22"], "util": ["C13", "C15", "C16", "C17", "C20", "C21", "C22"], "main": ["C06"]}
FAULTS = ["C01", "C05", "C10", "C07"]
KINDS = {"dbml": "export dbml", "quickdbd": "export quickdbd", "plantuml": "generate plantuml", "graphql": "generate graphql", "protobuf": "generate pb", "gorm": "generate gorm", "jpa": "generate kt", "sqlalchemy": "generate sqlalchemy",
         "xlsx": "import xlsx,export xlsx", "liquibase": "generate liquibase,diff liquibase", "diff": "diff liquibase,diff flyway,diff md", "mysql": "import mysql,export mysql", "ojson": "import ojson", "staruml": "import staruml", "octopus": "init,export dbml,generate pb"}
tmp = tempfile.mkdtemp(prefix="mut", dir="/tmp")
octsim = tmp + "/octsim"
subprocess.check_call(["go", "build", "-o", octsim, "."], cwd=ROOT + "/sim", env=dict(os.environ, CGO_ENABLED="0"))
files = [l for l in subprocess.check_output(["git", "-C", REPO, "ls-files", "*.go"], text=True).split() if not l.endswith("_test.go")]
area = lambda f: os.path.dirname(f).split("/")[-1] or "main"
files = [f for f in files if not DIRS or area(f) in DIRS]
ms = [json.loads(l) for l in subprocess.check_output(["go", "run", "."] + [os.path.join(REPO, f) for f in files], cwd=ROOT + "/tools/mutate", text=True).splitlines()]
def boring(m):
    o = m["old"]
    return m["kind"] in ("string", "empty", "dropfield") and ("Usage" in o or o.count(" ") > 2 and "cli.go" in m["file"]) or "panic(" in o
ms = [m for m in ms if not boring(m)]
rnd = random.Random(SEED)
by = collections.defaultdict(list)
for m in ms:
    by[m["file"]].append(m)
rnd.shuffle(ms)
ms = ms[:SAMPLE]
print(len(ms), "mutants", file=sys.stderr)
pool = [f"{tmp}/r{i}" for i in range(4)]
for p in pool:
    shutil.copytree(REPO, p, symlinks=True)
out = open(OUT, "a")

def run(cmd, cwd, env=None, timeout=600):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"

def one(m):
    d = pool.pop()
    try:
        rel = os.path.relpath(m["file"], REPO)
        src = open(m["file"], "rb").read()
        with open(os.path.join(d, rel), "wb") as f:
            f.write(src[:m["start"]] + m["repl"].encode() + src[m["end"]:])
        m["file"] = rel
        try:
            rc, o = run(["go", "build", "-o", d + ".bin", "."], d)
            if rc:
                m["result"] = "build"; return m
            rc, o = run(["go", "test", "./..."], d, timeout=120)
            if rc:
                m["result"] = "tests"; return m
            shutil.rmtree(d + ".w", ignore_errors=True)
            env = {"OCTSIM_REPO": d, "OCTSIM_WORKER": d + ".w", "OCTSIM_ROOT": tmp + "/v" + os.path.basename(d), "OCTSIM_N": "200"}
            os.makedirs(env["OCTSIM_ROOT"], exist_ok=True)
            if not os.path.exists(env["OCTSIM_ROOT"] + "/sim"):
                os.symlink(ROOT + "/sim", env["OCTSIM_ROOT"] + "/sim")
            shutil.copy(ROOT + "/known_findings.json", env["OCTSIM_ROOT"])
            plan = [(p, "200") for p in AREA.get(area(rel), ["C06"])]
            plan += [(p, "500") for p, _ in plan]
            plan += [(p, "20") for p in FAULTS]
            for p, n in plan:
                e = dict(env, OCTSIM_N=n)
                if n == "20" and p != "C07" and area(rel) in KINDS:
                    e["OCTSIM_KINDS"] = "init," + KINDS[area(rel)]
                rc, o = run([octsim, "check", p], ROOT, e)
                if rc not in (0, 1):
                    m["result"] = "error"; m["msg"] = o[-300:]
                    return m
                if rc:
                    m["result"] = "caught"; m["by"] = p; m["n"] = n; m["rc"] = rc
                    m["msg"] = o[o.find("VIOLATION"):][:300]
                    return m
            m["result"] = "survived"
            return m
        finally:
            with open(os.path.join(d, rel), "wb") as f:
                f.write(src)
    finally:
        pool.append(d)

tally = collections.Counter()
with cf.ThreadPoolExecutor(4) as ex:
    for m in ex.map(one, ms):
        tally[m["result"]] += 1
        out.write(json.dumps(m) + "\n"); out.flush()
print(dict(tally), file=sys.stderr)
shutil.rmtree(tmp)
