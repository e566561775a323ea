"""one.py REPO FILE: runs all pipelines on REPO until something is reported."""
import sys, os, json
sys.path.insert(0, "/verif/bin")
os.environ["VERIF_REPO"] = sys.argv[1]
import kv, plans
S = "/tmp/kv-sweep/scen/"
def J(spec, mode, *a): return (spec, mode, list(a))
N = lambda prof, n=25, ops=40, seed=1: J("NetTrace", "net", "-seed", seed, "-profile", prof, "-n", n, "-ops", ops)
jobs = {
 "net": [N("mixed"), N("send"), N("recv"), N("share"), N("alias"), N("delete"), N("network"), J("NetTrace", "scenarios", "-seed", 1, "-scenarios", S + "net.json")],
 "codec": [J("CodecTrace", "roundtrips", "-seed", 1, "-n", 300), J("CodecTrace", "legend", "-seed", 1, "-n", 300), J("CodecTrace", "diana", "-seed", 1, "-n", 300)],
 "store": [J("StoreTrace", "store", "-seed", 1, "-profile", p, "-n", n, "-ops", 60) for p, n in (("mixed", 20), ("guard", 30), ("rekey", 8), ("damage", 15))] + [J("StoreTrace", "damage", "-seed", 1, "-n", 40, "-ops", 0)],
 "gen": [J("GenTrace", "gen", "-seed", 100, "-n", 40)],
 "wipe": [J("WipeTrace", "wipe", "-seed", 1, "-n", 40, "-ops", 6), J("WipeTrace", "wipe", "-seed", 1, "-n", 0, "-scenarios", S + "wipes.json")],
 "print": [J("PrintTrace", "print", "-seed", 1, "-n", 24), J("PrintTrace", "print", "-seed", 1, "-n", 0, "-scenarios", S + "heights.json")],
 "radio": [J("RadioTrace", "radio", "-seed", 1, "-n", 250), J("RadioTrace", "radio", "-seed", 1, "-n", 0, "-scenarios", S + "radio.json")],
 "crand": [J("CrandTrace", "crand", "-seed", 100, "-n", 30)],
 "crash": [J("CrashTrace", "crash", "-seed", 1, "-n", 5, "-ops", 0), J("CrashTrace", "crash", "-seed", 2, "-n", 4, "-ops", 2)],
 "cli": [J("CliTrace", "cli", "-bin", "BIN", "-seed", 1, "-n", 10, "-ops", 25), J("CliTrace", "cli", "-bin", "BIN", "-seed", 2, "-n", 10, "-ops", 25, "-profile", "keys"),
         J("CliTrace", "cli", "-bin", "BIN", "-seed", 3, "-n", 10, "-ops", 25, "-scenarios", S + "sel.json"),
         J("CliTrace", "cliscen", "-bin", "BIN", "-seed", 1, "-scenarios", S + "cmds.json"), J("CliTrace", "clifault", "-bin", "BIN", "-seed", 1, "-n", 25)],
}
order = {"cipher.go": "codec net", "messages.go": "radio net", "keys.go": "gen net", "persistence.go": "store net crash", "functions.go": "net print", "krypto431.go": "wipe store net",
         "print.go": "print net", "diana/diana.go": "codec", "crand/crand.go": "crand gen"}
f = sys.argv[2]
o = order.get(f, "cli").split()
o += [x for x in jobs if x not in o]
if len(sys.argv) > 3: o = sys.argv[3].split()
ctx = kv.Ctx("sweep", "quick", 1)
try:
    ctx.driver()
    for g in o:
        if g == "crand" and f != "crand/crand.go": continue
        for spec, mode, a in jobs[g]:
            a = [ctx.program() if x == "BIN" else x for x in a]
            path = ctx.drive(mode, *a, timeout=150)
            data, n, bad = ctx.validate(spec, path, mode, timeout=300)
            os.unlink(path)
            bad = sorted({(p, w) for p, w, _, _ in bad if not w.startswith("KNOWN ")})
            if bad:
                print("CAUGHT", g, mode, bad[:4]); sys.exit(0)
    print("SURVIVED")
except kv.CodeFailure as x:
    print("CAUGHT", x.what)
except kv.MachineError as x:
    print("ERROR", str(x)[:600].replace("\n", " | "))
finally:
    ctx.close()
