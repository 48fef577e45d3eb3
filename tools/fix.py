"""fix.py FILE MSG <<< old\n====\nnew   : exact single replacement + one small fix: commit in /repo"""
import sys, subprocess
f, msg = "/repo/src/actuarialmath/" + sys.argv[1], sys.argv[2]
blocks = sys.stdin.read().split("\n####\n")
t = open(f).read()
for b in blocks:
    old, new = b.split("\n====\n")
    old = old.strip("\n"); new = new.strip("\n")
    assert t.count(old) == 1, (t.count(old), old)
    t = t.replace(old, new)
open(f, "w").write(t)
subprocess.check_call(["git", "-C", "/repo", "commit", "-qam", "fix: " + msg.removeprefix("fix: ")])
print(subprocess.check_output(["git", "-C", "/repo", "log", "--oneline", "-1"]).decode().strip())
