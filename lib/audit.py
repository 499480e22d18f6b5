#!/usr/bin/env python3
"""audit.py UNIT...: every branch of every function under contract must be reachable under the contracts (development-time and thorough tier)"""
import json, os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit as U
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def audit(name, only=None):
    u = U.Unit(os.path.join(ROOT, "specs", name + ".unit"), "/repo")
    txt = u.build(probe="blocks")
    i = txt.index("verus! {") + len("verus! {")
    txt = txt[:i] + " pub uninterp spec fn __arb(k: int) -> bool;" + txt[i:]
    lines = txt.split("\n")
    d = tempfile.mkdtemp()
    p = os.path.join(d, name + ".rs")
    open(p, "w").write(txt)
    want = {}
    for k, l in enumerate(lines):
        m = re.search(r"//probe:(.*)$", l)
        if m:
            want.setdefault(m.group(1), []).append(k + 1)
    cmd = ["verus", p, "--triggers-mode", "silent", "--multiple-errors", "60", "--rlimit", "20"]
    if only:
        cmd += ["--verify-root", "--verify-function", only]
    r = subprocess.run(cmd + ["--", "--error-format=json"], cwd=d, capture_output=True, text=True)
    hit, soft, other = set(), set(), []
    for l in r.stderr.splitlines():
        try:
            x = json.loads(l)
        except ValueError:
            continue
        if x.get("level") != "error":
            continue
        for s in x["spans"]:
            hit.add(s["line_start"])
            if "rlimit" in x["message"].lower():
                for f in u.fns:
                    if f["gen"] <= s["line_start"] <= f["gen_end"]:
                        soft.add(f["fn"])
        if "assertion failed" not in x["message"]:
            other.append((x["message"][:150], [s["line_start"] for s in x["spans"]]))
    bad = [k for k, ls in want.items() if not any(ln in hit for ln in ls) and k.rsplit(":", 1)[0] not in soft and (not only or k.startswith(only + ":"))]
    return bad, sorted(soft), other, len(want), u.demote


if __name__ == "__main__":
    bad, soft, other, n, dem = audit(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
    print(n, "branches; unreachable:", bad)
    print("resource limit in:", soft, "demoted:", dem)
    print("other errors:", other[:10])
