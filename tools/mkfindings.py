"""known_findings.jsonl: fixed entries from the fix: commits of /repo (development helper; checks never write the file)"""
import subprocess, json, os
MAP = [("uninitialised", "C11"), ("restart the propeller", "C09"), ("brake power and throttle", "C12"), ("omitted control or aero", "C09"),
       ("snapshots", "C10"), ("no longer modify the aero", "C10"), ("damping derivatives", "C16"), ("default aero state", "C09"),
       ("no longer drop the filename", "C21"), ("stall analyses", "C24"), ("cg_location", "C06"), ("built in Python", "C22"),
       ("rotation direction 0", "C25"), ("is_main", "C22"), ("axial up to rounding", "C11"), ("propeller axis", "C11"),
       ("distributions file is complete", "C21"), ("numpy number", "C28"), ("cannot be written completely", "C29"), ("NACA", "C20"), ("pitch angle of their chord line", "C20"), ("bisected", "C13"), ("Alpha", "C21"), ("angle of attack in the distributions", "C21"),
       ("edge of a control surface", "C05"), ("two equal guesses", "C17"), ("outside the solution bracket", "C11")]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    pid = next((p for k, p in MAP if k in s), None)
    assert pid, s
    out.append(json.dumps(dict(status="fixed", property=pid, commit=h, what=s[5:], entry="fixed: property=%s %s %s" % (pid, h, s[5:]))))
known = [l.strip() for l in open(os.path.join(HERE, "known_findings.jsonl"))] if os.path.exists(os.path.join(HERE, "known_findings.jsonl")) else []
known = [l for l in known if l and json.loads(l)["status"] == "known"]
open(os.path.join(HERE, "known_findings.jsonl"), "w").write("\n".join(out + known) + "\n")
