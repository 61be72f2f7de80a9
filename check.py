#!/usr/bin/env python3
"""check.py ID              run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py ID --replay DIR   run the script of a recorded violation again"""
import importlib, os, re, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import fw, build, drive


def replay(d):
    d = os.path.abspath(d)
    rep = open(os.path.join(d, "report.txt")).read()
    exe = rep.split("harness ", 1)[1].split("\n")[0]
    if not os.path.exists(os.path.join(d, "script.txt")) or exe == "None":
        print(rep); return
    build.build(os.path.basename(os.path.dirname(exe)) if os.path.basename(os.path.dirname(exe)) in build.CFGS else "san", (os.path.basename(exe)[2:],))
    s = open(os.path.join(d, "script.txt"), encoding="latin-1").read().replace("@DIR@", d)
    s = re.sub(r"/verif/build/work/\S*/", d + "/", s)
    p = os.path.join(d, "replay.in")
    open(p, "w", encoding="latin-1").write(s)
    e = drive.san_env("stderr"); 
    for k in e:
        if k.endswith("OPTIONS"): e[k] = ":".join(x for x in e[k].split(":") if not x.startswith("log_path"))
    print("exit", subprocess.call([exe, p, os.path.join(d, "replay.out")], env=e, cwd=d))
    print(open(os.path.join(d, "replay.out"), errors="replace").read())


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        build.build("san", ("vh", "vg", "vidf", "vw", "vwg")); return 0
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay(sys.argv[3]); return 0
    m = importlib.import_module("checks." + pid.lower())
    c = fw.Ctx(pid, getattr(m, "LEVEL", "exploration"))
    try:
        m.run(c)
    except build.BuildError as e:
        print("cannot build:", e)
        return 3
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    os._exit(rc)
