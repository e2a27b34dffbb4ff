"""Assemble DESIGN.md from tools/design/{head.md,body.py,tail.md}, properties.jsonl, the checks and seeded/*/meta.json."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ns = {}
exec(open(here + "/design/body.py").read(), ns)
D = ns["D"]
out = [open(here + "/design/head.md").read().rstrip() + "\n"]
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    oracle, bounds, why = D[pid]
    src = open("%s/checks/%s.py" % (root, pid.lower())).read()
    mo = re.search(r'(\d+) if tier == "quick" else (\d+)', src)
    try:
        ev = json.load(open("%s/evidence/%s.json" % (root, pid)))
        cost = "quick about %.0f s" % max(1, ev["wall_s"]) if ev["tier"] == "quick" else ""
    except OSError:
        cost = ""
    orac = re.search(r"REQUIRED_ORACLES = \[(.*?)\]", src, re.S).group(1)
    orac = re.sub(r"\s+", " ", orac.replace('"', ""))
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("* **Decided by**: %s" % oracle)
    out.append("* **Oracles that must be reached**: %s." % orac)
    out.append("* **Bounds**: %s" % bounds)
    out.append("* **Workload and cost**: %s; %s." % ("case multiplier %s (quick) / %s (thorough)" % (mo.group(1), mo.group(2)) if mo else "every case once", cost or "see evidence"))
    out.append("* **Beyond tests**: %s\n" % why)
out.append(open(here + "/design/tail.md").read().rstrip() + "\n")
out.append("| bug | property | needs | what it breaks | caught by (quick, seeds 1 and 2) |\n|---|---|---|---|---|")
caught = {}
cf = here + "/design/caught.json"
if os.path.exists(cf):
    caught = json.load(open(cf))
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d))
    meta = json.load(open(d))
    out.append("| %s | %s | %s | %s | %s |" % (b, meta["property"], meta["needs"].replace("|", "/"), meta["what_it_breaks"].replace("|", "/"), caught.get(b, "?")))
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
