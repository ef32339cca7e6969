"""mk.py ID spec.py : spec defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, SHM(bool)"""
import json, pathlib, shutil, subprocess, sys, runpy
sid, spec = sys.argv[1:3]
s = runpy.run_path(spec)
d = pathlib.Path("/verif/seeded") / sid
d.mkdir(parents=True, exist_ok=True)
touched = set()
try:
    for f, old, new in s["EDITS"]:
        p = pathlib.Path("/tmp/fix2/dustgoggles") / f
        t = p.read_text()
        assert t.count(old) == 1, (f, t.count(old), old)
        p.write_text(t.replace(old, new)); touched.add(str(p))
    diff = subprocess.run(["git", "-C", "/tmp/fix2", "diff"], capture_output=True, text=True).stdout
    (d / "patch.diff").write_text(diff)
finally:
    subprocess.run(["git", "-C", "/tmp/fix2", "checkout", "--", "."], check=True, capture_output=True)
(d / "meta.json").write_text(json.dumps(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), indent=1) + "\n")
(d / "demo.py").write_text(s["DEMO"].lstrip("\n"))
shutil.copy("/tmp/sb/demo.sh", d / "demo.sh")
if s.get("SHM"):
    shutil.copy("/tmp/sb/shmhook.py", d / "shmhook.py")
