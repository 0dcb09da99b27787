"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits of /repo."""
import subprocess, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s\t%b"], text=True)
from fixmap import M
lines, unmapped = [], []
for l in log.splitlines():
    if "\tfix:" not in l:
        continue
    h, s = l.split("\t")[:2]
    s = s[len("fix:"):].strip()
    for k, v in M:
        if k in s:
            lines.append(f"fixed: property={v} {h} {s}")
            break
    else:
        unmapped.append((h, s))
p = os.path.join(H, "known_findings.txt")
keep = [l.rstrip("\n") for l in open(p)] if os.path.exists(p) else []
keep = [l for l in keep if l and not l.startswith("fixed:")]
open(p, "w").write("\n".join(keep + lines) + "\n")
print(len(lines), "fixed;", "UNMAPPED:", unmapped)
