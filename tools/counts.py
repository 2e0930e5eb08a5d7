"""Tells which seeded bugs change lines of the original repository."""
import os, re, subprocess
orig = "c74773d"

def blame(path, line):
    b = subprocess.run(["git","-C","/repo","blame","-L%d,%d"%(line,line),"-s","--abbrev=40","HEAD","--",path],capture_output=True,text=True).stdout
    c = b.split()[0].lstrip("^")
    return subprocess.run(["git","-C","/repo","merge-base","--is-ancestor",c,orig]).returncode==0

for d in sorted(os.listdir("/verif/seeded")):
    f = "/verif/seeded/%s/patch.diff" % d
    if not os.path.exists(f): continue
    path, line, hits, mine = None, 0, 0, 0
    prev = " "
    for l in open(f):
        if l.startswith("--- "): path = l[6:].strip()
        elif l.startswith("@@"): line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            if l[1:].strip() and not l[1:].strip().startswith("//"):
                if blame(path, line): hits += 1
                else: mine += 1
            line += 1
        elif l.startswith(" "): line += 1
        elif l.startswith("+") and prev == " " and line > 1:
            if blame(path, line-1): hits += 1
            else: mine += 1
        prev = l[0]
    print("%-28s original=%d mine=%d%s" % (d, hits, mine, "" if hits else "   <== doesn't count?"))
