"""Worker process: reads one scenario (JSON) per line, runs it through driver.run, answers with
one line `@@RESULT {...}`.  Exceptions of the code under test are turned into trace events by the
drivers themselves; whatever escapes here is reported as a crash (the drivers run clean on the
unchanged tree, so an escaping exception is caused by the code under test)."""
import importlib, json, os, sys, traceback, warnings

def main():
    real = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull                       # the package prints; keep the channel clean
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    warnings.simplefilter("ignore")
    err = None
    try:
        drv = importlib.import_module(sys.argv[1])
    except Exception as e:
        err = traceback.format_exc()
    n = 0
    for line in sys.stdin:
        scn = json.loads(line)
        if err is not None:
            out = {"crash": "import failed", "tail": err[-1500:]}
        else:
            try:
                out = drv.run(scn)
            except Exception as e:
                t = traceback.format_exc()
                out = {"crash": "unexpected exception: " + t[-400:], "tail": t[-3000:]}
        real.write("@@RESULT " + json.dumps(out) + "\n")
        real.flush()
        n += 1
        if n % 40 == 0:
            try:
                import jax; jax.clear_caches()
            except Exception:
                pass

main()
