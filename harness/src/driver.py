# Answers one JSON request per line with the result of a function of the built extension module.
import importlib.machinery, importlib.util, json, os, sys
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
loader = importlib.machinery.ExtensionFileLoader("crystsymm", sys.argv[1])
spec = importlib.util.spec_from_file_location("crystsymm", sys.argv[1], loader=loader)
m = importlib.util.module_from_spec(spec)
loader.exec_module(m)
out.write("ready\n")
out.flush()
for line in sys.stdin:
    q = json.loads(line)
    args = q["args"]
    if q["tuples"]:
        args = [tuple(a) if isinstance(a, list) else a for a in args]
    try:
        r = {"ok": getattr(m, q["f"])(*args)}
    except BaseException as e:
        r = {"err": type(e).__name__ + ": " + str(e)[:200]}
    out.write(json.dumps(r) + "\n")
    out.flush()
