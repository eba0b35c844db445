"""Builds /verif/seeded from tools/plants/*.py and tries the checks against the planted bugs.

    plant.py build [ID...]     write seeded/<id>/, confirm each in a scratch copy of /repo
    plant.py check [ID...]     run the property's quick check against each one (scratch copy, VERIF_REPO)
    plant.py cross ID PROP...  run other properties' checks against one

A planted bug is never applied to /repo itself here.
"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
PY = "/opt/venv/bin/python"
BASE = "9e3fe27"

PRELUDE = (Path(__file__).parent / "plants" / "prelude.txt").read_text()
SH = '''#!/bin/sh
# exit 0 where the property holds, nonzero where it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def plants():
    found = {}
    for f in sorted((Path(__file__).parent / "plants").glob("*.py")):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        for p in mod.PLANTS:
            assert p["id"] not in found, p["id"]
            found[p["id"]] = p
    return found


def scratch():
    d = Path(tempfile.mkdtemp(prefix="plant-"))
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    subprocess.run(["git", "-C", str(d / "repo"), "checkout", "-q", "--", "."], check=True)
    return d


def sh(cmd, cwd, timeout=300, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, timeout=timeout, env={**os.environ, **(env or {})},
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else "", None)


def own_lines(repo, file):
    out = sh(["git", "blame", "-s", "-l", file], repo).stdout
    base = sh(["git", "rev-parse", BASE], repo).stdout.strip()
    own = set()
    anc = set(sh(["git", "rev-list", base], repo).stdout.split())
    for n, line in enumerate(out.splitlines(), 1):
        sha = line.split()[0].lstrip("^")
        if not any(a.startswith(sha) for a in anc):
            own.add(n)
    return own


def tests(repo):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "tests"], repo,
           env={"PYTHONPATH": str(repo / "src"), "PYTHONDONTWRITEBYTECODE": "1"})
    return r.returncode == 0, r.stdout.strip().splitlines()[-1:] or [""], r.stdout


def build(p):
    d = scratch()
    repo = d / "repo"
    try:
        for file, old, new in p["edits"]:
            f = repo / "src/vblf" / file
            s = f.read_text()
            if s.count(old) != 1:
                return p["id"], f"anchor occurs {s.count(old)} times in {file}: {old[:60]!r}"
            f.write_text(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        minus = 0
        cur, ln, own = None, 0, set()
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]; own = own_lines(repo if False else Path("/repo"), cur)
            elif m := re.match(r"@@ -(\d+)", line):
                ln = int(m[1]) - 1
            elif line.startswith("-") and not line.startswith("---"):
                ln += 1
                minus += 1
                if ln in own:
                    return p["id"], f"removes own line {cur}:{ln}"
            elif line.startswith(" "):
                ln += 1
        if not minus:
            return p["id"], "removes no original line"
        out = d / "out"
        out.mkdir()
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(SH)
        (out / "demo.sh").chmod(0o755)
        (out / "demo.py").write_text(PRELUDE + "\n# ---\n" + p["demo"].strip() + "\n")
        (out / "meta.json").write_text(json.dumps(
            {"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        ok, last, log = tests(repo)
        if not ok:
            return p["id"], "TESTS CATCH IT: " + " ".join(l for l in log.splitlines() if l.startswith("FAILED"))[:200]
        r = sh([str(out / "demo.sh")], repo)
        if r.returncode == 0:
            return p["id"], "demo passes WITH the patch"
        why = r.stdout.strip().splitlines()[-1:]
        sh(["git", "checkout", "-q", "--", "."], repo)
        r = sh([str(out / "demo.sh")], repo)
        if r.returncode != 0:
            return p["id"], "demo fails WITHOUT the patch: " + r.stdout[-800:]
        dest = SEEDED / p["id"]
        if dest.exists():
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        return p["id"], f"ok ({why[0][:100] if why else ''})"
    finally:
        shutil.rmtree(d)


def check(pid, prop=None, tier="quick"):
    meta = json.loads((SEEDED / pid / "meta.json").read_text())
    prop = prop or meta["property"]
    d = scratch()
    repo = d / "repo"
    try:
        r = sh(["git", "apply", str(SEEDED / pid / "patch.diff")], repo)
        if r.returncode:
            return pid, prop, "does not apply", ""
        r = sh(["python3", "check.py", prop, "--tier", tier], VERIF_RUN, timeout=900,
               env={"VERIF_REPO": str(repo), "VERIF_SEED": "1", "VERIF_TIER": tier})
        vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        good = r.returncode == 1 and any(f"property={prop} " in l for l in vio)
        return pid, prop, "CAUGHT" if good else f"MISSED rc={r.returncode}", (vio or r.stdout.strip().splitlines()[-3:] or [""])[0][:160]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    ps = plants()
    if mode == "build":
        SEEDED.mkdir(exist_ok=True)
        todo = [p for i, p in ps.items() if not ids or i in ids or any(i.startswith(x) for x in ids)]
        with ThreadPoolExecutor(4) as ex:
            for i, msg in ex.map(build, todo):
                print(f"{i:34s} {msg}", flush=True)
    else:
        # run from a copy of the committed work so that runs in parallel do not share build/
        todo = sorted(x.name for x in SEEDED.iterdir() if not ids or x.name in ids or any(x.name.startswith(i) for i in ids))
        VERIF_RUN = Path(os.environ.get("VERIF_RUN", VERIF))
        if mode == "cross":
            todo, props = [ids[0]], ids[1:]
            for q in props:
                print(*check(ids[0], q), flush=True)
        else:
            with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as ex:
                for res in ex.map(check, todo):
                    print("%-34s %-4s %-14s %s" % res, flush=True)
