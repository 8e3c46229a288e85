"""Lists planted bugs whose patch removes no line of the original repository."""
import glob, os, re, subprocess, sys
repo = "/repo"
base = sys.argv[1] if len(sys.argv) > 1 else "b07d23d"
blame = {}
def origins(f):
    if f not in blame:
        out = subprocess.run(["git", "-C", repo, "blame", "-l", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout
        blame[f] = [l[0] == "^" or l.split()[0].startswith(base) for l in out.splitlines()]
    return blame[f]
full = subprocess.run(["git", "-C", repo, "rev-parse", base], capture_output=True, text=True).stdout.strip()
base = full
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f = None; ok = 0; removed = 0; line = 0
    for l in open(p):
        if l.startswith("--- "): f = l[6:].strip()
        elif l.startswith("+++ "): pass
        elif l.startswith("@@"): line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            removed += 1
            if l[1:].strip() and not l[1:].strip().startswith("#"):
                ok += origins(f)[line - 1]
            line += 1
        elif l.startswith("+"): pass
        else: line += 1
    if not ok:
        print(os.path.basename(os.path.dirname(p)), "removed", removed)
