#!/usr/bin/env python3
"""Run a check on variants of the source: mut.py ID FILE 'old' 'new'
or  mut.py ID mutants.txt   (entries from tools/mutants/ID.json)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(pid, edits):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/snmp", d + "/snmp")
        for f, old, new in edits:
            p = os.path.join(d, "snmp", f)
            s = open(p).read()
            if s.count(old) < 1:
                return None, f"pattern not found in {f}: {old[:60]}"
            s = s.replace(old, new, 1)
            compile(s, p, "exec")
            open(p, "w").write(s)
        r = subprocess.run([sys.executable, V + "/check.py", pid],
                           env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d),
                           capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)
    finally:
        shutil.rmtree(d)


def mutants():
    """{property: [mutant]} from tools/mutants: JSON files, and Python files
    holding M = {property: [(name, expect, (file, old, new), ...)]}"""
    out = {}
    d = V + "/tools/mutants"
    for x in sorted(os.listdir(d)):
        if x.endswith(".json"):
            out[x[:-5]] = json.load(open(f"{d}/{x}"))
        elif x.endswith(".py"):
            ns = {}
            exec(open(f"{d}/{x}").read(), ns)
            for pid, ms in ns["M"].items():
                out.setdefault(pid, []).extend(
                    {"name": m[0], "expect": m[1], "edits": m[2:]}
                    for m in ms)
    return out


if __name__ == "__main__":
    if len(sys.argv) == 5:
        rc, out = run(sys.argv[1], [sys.argv[2:5]])
        print(rc, out[-1500:])
    else:
        from concurrent.futures import ThreadPoolExecutor
        table = mutants()
        ids = sys.argv[1:] or sorted(table)
        jobs = [(pid, m) for i in ids for pid, _, part in [i.partition(":")]
                for m in table[pid] if part in m["name"]]
        with ThreadPoolExecutor(6 if len(jobs) > 6 else 4) as ex:
            res = [(j, ex.submit(run, j[0], j[1]["edits"])) for j in jobs]
        for (pid, m), r in res:
            rc, out = r.result()
            want = m.get("expect", 1)
            flag = "ok  " if rc == want else "MISS" if want == 1 else "ALARM"
            line = [x for x in out.splitlines() if "[" in x or "BROKEN" in x
                    or "Error" in x]
            print(flag, pid, rc, m["name"], "|",
                  (line or [out[-120:].strip()])[0][:int(__import__("os").environ.get("W", 150))], flush=True)
