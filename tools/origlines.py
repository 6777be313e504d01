"""reads a -U0 diff (of the copy in the working directory) and counts removed lines that stem from the original repository"""
import re, subprocess, sys
BASE = "e841d9b"
n = tot = 0
f = None
for line in sys.stdin:
    if line.startswith("--- a/"):
        f = line[6:].strip()
    m = re.match(r"@@ -(\d+)(?:,(\d+))?", line)
    if m:
        a, c = int(m.group(1)), int(m.group(2) or 1)
        if c:
            out = subprocess.run(["git", "blame", "-s", "-L", "%d,+%d" % (a, c), "HEAD", "--", f], capture_output=True, text=True).stdout
            base = subprocess.run(["git", "show", BASE + ":" + f], capture_output=True, text=True).stdout.split("\n")
            for l in out.splitlines():
                tot += 1
                if l.split(")", 1)[1][1:] in base:
                    n += 1
print("%d/%d" % (n, tot))
