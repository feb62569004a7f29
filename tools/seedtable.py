#!/usr/bin/env python3
"""Fill in the table of planted changes and the list of properties that are
not claimed in DESIGN.md.  With --run, first runs the checks on each change
(in scratch copies) and says which are caught."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def caught(d, pid):
    t = tempfile.mkdtemp(prefix="seed")
    try:
        shutil.copytree("/repo/snmp", t + "/snmp")
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", t,
                        d + "/patch.diff"], cwd="/", check=True)
        r = subprocess.run([sys.executable, V + "/check.py", pid],
                           env=dict(os.environ, SA_REPO=t, SA_EVIDENCE=t),
                           capture_output=True, text=True)
        return r.returncode
    finally:
        shutil.rmtree(t)


rows = ["| change | property | what it breaks |", "|----|----|----|"]
for n in sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + n
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} |")
    if "--run" in sys.argv:
        rc = caught(d, m["property"])
        print("caught" if rc == 1 else f"MISSED ({rc})", m["property"], n,
              flush=True)
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- SEEDS -->.*?(?=\n`tools/mutants)", lambda m:
           "<!-- SEEDS -->\n\n" + "\n".join(rows) + "\n", s, flags=re.S)
na = json.load(open(V + "/MANIFEST.json"))["not_applicable"]
s = re.sub(r"<!-- NA -->.*", lambda m: "<!-- NA -->\n\n" + "\n".join(
    f"* **{x.get('id', x.get('property'))}** {x['reason']}" for x in na)
    + "\n", s, flags=re.S)
open(p, "w").write(s)
