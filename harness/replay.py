"""check.py PROPERTY --replay FILE: runs the scenario of a recorded violation again and judges it."""
import json, shutil, tempfile
import lib


def main(fn):
    with open(fn) as f:
        d = json.load(f)
    prop = d["property"]
    if "scenario" not in d or "driver" not in d:
        print("no scenario recorded:", d.get("reason")); return 2
    tmp = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        r = lib.run_scenarios(d["driver"], [d["scenario"]], tmp, extra_env=d.get("extra_env"))[0]
        if "machinery" in r:
            print("MACHINERY-ERROR", r["machinery"]); return 2
        if "crash" in r:
            print(f"VIOLATION property={prop} replay={fn}\n   {r['crash']}\n{r.get('tail', '')}"); return 1
        if not d.get("spec"):
            print("OK: the implementation returned"); return 0
        v = lib.judge(d["spec"], [r["trace"]], lib.Stats())[0]
        if v[0] == "REJECT":
            print(json.dumps(r["trace"], indent=1)[:8000])
            print(f"VIOLATION property={prop} replay={fn}\n   step {v[1]}: {v[2]}"); return 1
        print("OK: the recorded scenario is accepted now"); return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
