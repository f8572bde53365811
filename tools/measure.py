"""
Runs the check of each planted bug's property (quick tier, seed 1) on a scratch
copy of the repository with its patch, and records the outcome in caught.json.
Usage: measure.py [ids]
"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(HERE, "tools", "caught.json")
done = json.load(open(out)) if os.path.exists(out) else {}
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(f)) for f in
                             glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))
for name in ids:
    d = os.path.join(HERE, "seeded", name)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="measure-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
        env = dict(os.environ, SIM_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["bash", os.path.join(HERE, "check.sh"), prop], cwd=HERE, env=env,
                           capture_output=True, text=True)
    finally:
        shutil.rmtree(tmp)
    done[name] = {0: "missed", 1: prop}.get(r.returncode, "check error")
    print(name, prop, done[name], flush=True)
    json.dump(done, open(out, "w"), indent=1, sort_keys=True)
