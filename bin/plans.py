"""What each check runs. Every plan uses models (TLC, complete within the
constants given) and conformance runs (recorded executions of the code in
/repo, judged by a trace specification)."""
import json, os


def net(ctx, *parts):
    """Random histories of stations: parts are (profile, traces, operations)."""
    jobs = []
    for prof, n, ops in parts:
        n = n if ctx.quick else n * 25
        size = 40
        k = 0
        while n > 0:
            m = min(n, size)
            jobs.append(("net", ["-seed", ctx.seed * 1000 + k, "-profile", prof, "-n", m, "-ops", ops]))
            n -= m
            k += 1
    ctx.check_traces("NetTrace", jobs)


def scenarios(ctx, num):
    """Behaviours of the model, made by TLC, replayed into the code."""
    num = num if ctx.quick else num * 20
    got = ctx.simulate("MCNet", "MCNetSim.cfg", num, 30, ctx.seed, "SCENARIO")
    seen = {}
    for g in got:
        c = json.loads(g)
        seen.setdefault(json.dumps(c[:-1]), c)
    scs = []
    for i, c in enumerate(seen.values()):
        gs = [5, 1, 3, 4][i % 4]
        scs.append({"name": "behaviour %d of MCNet" % i, "stations": 3, "gs": gs, "kl": [20, 23, 40, 25][(i // 4) % 4], "cmds": c})
    run_scenarios(ctx, scs)


def run_scenarios(ctx, scs):
    jobs = []
    for k in range(0, len(scs), 60):
        p = os.path.join(ctx.sub("scen"), "s.json")
        json.dump(scs[k:k + 60], open(p, "w"))
        jobs.append(("scenarios", ["-seed", ctx.seed * 1000 + k, "-scenarios", p]))
    ctx.check_traces("NetTrace", jobs)


def c(op, s, **kw):
    d = {"op": op, "s": s, "t": 0, "n": 1, "j": 0, "w": 0, "x": 0, "to": []}
    d.update(kw)
    return d


# The known finding of C24, always replayed.
CROSSING = {"name": "crossing traffic", "stations": 2, "gs": 5, "kl": 40, "cmds": [
    c("gen", 0, n=2, to=[1]), c("xfer", 0, t=1), c("send", 0, to=[1], w=1), c("send", 1, to=[0], w=1), c("recv", 1), c("recv", 0)]}


def mcnet(ctx, wrong=()):
    if ctx.quick:
        ctx.model("MCNet", MaxLevel=4)
    else:
        ctx.model("MCNet", MaxLevel=7, timeout=3000)
        ctx.model("MCNet", MaxLevel=6, Shared="FALSE", INVARIANTS="RulesHold NoCrossing PadOnceAtStation NetworkPadOnce UsedIsMarked", timeout=3000)
        for w in wrong:
            ctx.broken_model("MCNet", Mut='"%s"' % w, MaxLevel=6)


def codec_models(ctx):
    if ctx.quick:
        ctx.model("MCCodec", "MCCodecToy.cfg", MaxLen=3)
        ctx.model("MCCipher", MaxLen=2)
    else:
        ctx.model("MCCodec", "MCCodecToy.cfg", MaxLen=4)
        ctx.model("MCCodec", "MCCodecReal.cfg")
        ctx.model("MCCipher", MaxLen=4, timeout=3000)
        ctx.model("MCCipher", MaxLen=3, Gs=2, Kls="{8, 9, 10}", NKeys=5, timeout=3000)
        ctx.broken_model("MCCipher", Lookahead="FALSE")


def roundtrips(ctx, n):
    if ctx.quick:
        ctx.check_traces("CodecTrace", [("roundtrips", ["-seed", ctx.seed * 10 + k, "-n", n // 2]) for k in range(2)])
    else:
        ctx.check_traces("CodecTrace", [("roundtrips", ["-seed", ctx.seed * 100 + k, "-n", n * 4] + (["-exhaustive"] if k == 0 else [])) for k in range(16)])


def letter_sequences(ctx, num):
    """Legal letter sequences, with redundant switches, made by TLC."""
    got = ctx.simulate("MCCodec", "MCCodecSim.cfg", num, 26, ctx.seed, "LETTERS")
    p = os.path.join(ctx.sub("letters"), "l.json")
    seqs = sorted({"".join(chr(c) for c in json.loads(g)) for g in got})
    json.dump(seqs, open(p, "w"))
    return p


def legend(ctx, n):
    p = letter_sequences(ctx, 100 if ctx.quick else 4000)
    jobs = [("legend", ["-seed", ctx.seed * 10, "-n", n, "-letters", p])]
    if not ctx.quick:
        jobs += [("legend", ["-seed", ctx.seed * 10 + k, "-n", n * 5] + (["-exhaustive"] if k == 1 else [])) for k in range(1, 9)]
    ctx.check_traces("CodecTrace", jobs)


def mcstore(ctx):
    if ctx.quick:
        ctx.model("MCStore", MaxLevel=6)
    else:
        ctx.model("MCStore", MaxLevel=100, timeout=1500)
        for w in ("clobber", "truncate", "failedload"):
            ctx.broken_model("MCStore", Mut='"%s"' % w, MaxLevel=7)


def mcsave(ctx):
    if ctx.quick:
        ctx.model("MCSave")
    else:
        ctx.model("MCSave", NBlocks=5, Savers="{1, 2, 3}", MaxFaults=4)
        for w in ("inplace", "unlinkfirst", "renamefirst", "ignorewrite", "nosync", "syncearly", "ignoresync"):
            ctx.broken_model("MCSave", Mut='"%s"' % w)


def store_scenarios(ctx, num):
    """Behaviours of MCStore, made by TLC, replayed with real files."""
    num = num if ctx.quick else num * 15
    got = ctx.simulate("MCStore", "MCStoreSim.cfg", num, 41, ctx.seed, "STORE")
    seen = {}
    for g in got:
        cs = json.loads(g)
        seen.setdefault(json.dumps(cs[:-1]), cs)
    scs = list(seen.values())
    jobs = []
    for k in range(0, len(scs), 40):
        p = os.path.join(ctx.sub("scen"), "s.json")
        json.dump(scs[k:k + 40], open(p, "w"))
        jobs.append(("storescen", ["-seed", ctx.seed * 1000 + k, "-scenarios", p]))
    ctx.check_traces("StoreTrace", jobs)


def store(ctx, *parts):
    """Random histories of instances and files: (profile, traces, operations)."""
    jobs = []
    for prof, n, ops in parts:
        n = n if ctx.quick else n * 20
        k = 0
        while n > 0:
            m = min(n, 20)
            jobs.append(("store", ["-seed", ctx.seed * 1000 + k, "-profile", prof, "-n", m, "-ops", ops]))
            n -= m
            k += 1
    jobs.append(("older", ["-seed", ctx.seed]))
    ctx.check_traces("StoreTrace", jobs)


def crash(ctx, n, variants=range(6)):
    jobs = []
    for k in range(1 if ctx.quick else 8):
        for v in variants:
            jobs.append(("crash", ["-seed", ctx.seed * 100 + k, "-n", n if ctx.quick else n * 20, "-ops", v]))
    ctx.check_traces("CrashTrace", jobs, parallel=4)


def run_C01(ctx):
    codec_models(ctx)
    roundtrips(ctx, 600)
    net(ctx, ("send", 60, 30))


def run_C02(ctx):
    mcnet(ctx, ["nomark", "markfirst", "importfresh", "loadfresh"])
    scenarios(ctx, 40)
    net(ctx, ("send", 80, 40), ("mixed", 80, 40), ("network", 40, 40), ("delete", 40, 40))


def run_C03(ctx):
    mcnet(ctx, ["nomark"])
    scenarios(ctx, 30)
    net(ctx, ("send", 120, 40), ("mixed", 80, 40), ("alias", 40, 30))


def run_C04(ctx):
    mcnet(ctx, ["markfailed"])
    roundtrips(ctx, 300)
    net(ctx, ("send", 160, 40), ("mixed", 80, 40))


def run_C05(ctx):
    mcnet(ctx, ["recvnomark"])
    scenarios(ctx, 30)
    legend(ctx, 300)
    net(ctx, ("recv", 120, 40), ("share", 60, 40), ("mixed", 60, 40))


def run_C06(ctx):
    codec_models(ctx)
    legend(ctx, 500)
    roundtrips(ctx, 200)
    net(ctx, ("recv", 40, 40))


def run_C07(ctx):
    ctx.model("MCCodec", "MCCodecReal.cfg" if not ctx.quick else "MCCodecToy.cfg", **({"MaxLen": 2} if ctx.quick else {}))
    jobs = [("diana", ["-seed", ctx.seed * 10 + k, "-n", 600]) for k in range(2 if ctx.quick else 40)]
    ctx.check_traces("CodecTrace", jobs)


def run_C08(ctx):
    mcstore(ctx)
    store_scenarios(ctx, 30)
    store(ctx, ("mixed", 60, 60), ("big", 3, 30))


def run_C09(ctx):
    mcstore(ctx)
    store(ctx, ("damage", 60, 60))
    if ctx.quick:
        ctx.check_traces("StoreTrace", [("damage", ["-seed", ctx.seed, "-n", 24, "-ops", 0])])
    else:
        ctx.check_traces("StoreTrace", [("damage", ["-seed", ctx.seed + 97 * k, "-n", 2, "-ops", k]) for k in range(8)], parallel=8, timeout=3000)


def run_C10(ctx):
    mcsave(ctx)
    crash(ctx, 5)
    store(ctx, ("guard", 20, 40))


def run_C11(ctx):
    cli(ctx, 6, profile="keys")
    cli(ctx, 3, profile="term")
    mcstore(ctx)
    store_scenarios(ctx, 30)
    store(ctx, ("guard", 80, 60), ("mixed", 20, 60))


def run_C15(ctx):
    if ctx.quick:
        ctx.model("MCGen")
    else:
        ctx.model("MCGen", S=5, L=3, Gs=2, MaxKeys=2, MaxDraws=9, timeout=3000)
        ctx.model("MCGen", S=3, L=3, Gs=1, MaxKeys=3, MaxDraws=10, timeout=3000)
        for w in ("nocheck", "reuse", "modulo"):
            ctx.broken_model("MCGen", Mut='"%s"' % w)
        ctx.broken_model("MCGen", Mut='"short"', Gs=2, Kl=1)
    jobs = [("gen", ["-seed", ctx.seed * 100 + k, "-n", 40] + ([] if ctx.quick else ["-exhaustive"])) for k in range(3 if ctx.quick else 60)]
    ctx.check_traces("GenTrace", jobs)
    net(ctx, ("share", 40, 40), ("mixed", 40, 40))


def run_C16(ctx):
    if ctx.quick:
        ctx.model("MCWipe")
    else:
        ctx.model("MCWipe", NObj=4, Fields=3, Size=3, MaxFails=4, timeout=3000)
        for w in ("movefirst", "nofallback", "skipfield", "giveup", "keepown"):
            ctx.broken_model("MCWipe", Mut='"%s"' % w)
    got = sorted(set(ctx.simulate("MCWipe", "MCWipeSim.cfg", 40 if ctx.quick else 1500, 60, ctx.seed, "WIPES")))
    jobs = []
    for k in range(0, len(got), 40):
        p = os.path.join(ctx.sub("wipes"), "w.json")
        open(p, "w").write("[" + ",".join(got[k:k + 40]) + "]")
        jobs.append(("wipe", ["-seed", ctx.seed * 100 + k, "-n", 0, "-scenarios", p]))
    for k in range(4 if ctx.quick else 100):
        jobs.append(("wipe", ["-seed", ctx.seed * 100 + 50 + k, "-n", 25, "-ops", 6]))
    ctx.check_traces("WipeTrace", jobs)
    net(ctx, ("alias", 40, 40), ("delete", 40, 40))


def run_C19(ctx):
    if ctx.quick:
        ctx.model("MCPages")
    else:
        ctx.model("MCPages", MaxItems=6, Cap=6, MaxHeight=8, MaxLetters=40, MaxGs=8, MaxColumns=45, timeout=3000)
        for w in ("droppending", "forgetrows", "keeppage", "lastpage", "wholeonly", "toowide"):
            ctx.broken_model("MCPages", Mut='"%s"' % w)
    got = sorted(set(ctx.simulate("MCPages", "MCPagesSim.cfg", 60 if ctx.quick else 2000, 20, ctx.seed, "HEIGHTS")))
    jobs = []
    for k in range(0, len(got), 30):
        p = os.path.join(ctx.sub("heights"), "h.json")
        open(p, "w").write("[" + ",".join(got[k:k + 30]) + "]")
        jobs.append(("print", ["-seed", ctx.seed * 100 + k, "-n", 0, "-scenarios", p]))
    for k in range(4 if ctx.quick else 60):
        jobs.append(("print", ["-seed", ctx.seed * 100 + k, "-n", 12 if ctx.quick else 40]))
    ctx.check_traces("PrintTrace", jobs)


def run_C25(ctx):
    if ctx.quick:
        ctx.model("MCColumns")
    else:
        ctx.model("MCColumns", MaxRows=3, timeout=3000)
        for w in ("firstonly", "fieldsonly", "nosep"):
            ctx.broken_model("MCColumns", Mut='"%s"' % w)
    got = set()
    for n in (1, 2, 4):
        got.update(ctx.simulate("MCColumns", "MCColumnsSim.cfg", 15 if ctx.quick else 400, 8, ctx.seed, "SHAPE", MaxRows=n))
    got = sorted(got)
    jobs = []
    for k in range(0, len(got), 40):
        p = os.path.join(ctx.sub("shapes"), "s.json")
        open(p, "w").write("[" + ",".join(got[k:k + 40]) + "]")
        jobs.append(("list", ["-seed", ctx.seed * 100 + k, "-n", 0, "-scenarios", p]))
    for k in range(6 if ctx.quick else 100):
        jobs.append(("list", ["-seed", ctx.seed * 100 + k, "-n", 60]))
    ctx.check_traces("ListTrace", jobs)
    cli(ctx, 6, profile="lists")


def cli(ctx, n, ops=25, profile="", sels=0):
    """Commands of the program in random order, with selections made by TLC."""
    prog = ctx.program()
    files = []
    if sels:
        num = sels if ctx.quick else sels * 20
        got = ctx.simulate("MCSelect", "MCSelectSim.cfg", max(1, num // 50), 50, ctx.seed, "SELECT")
        got = sorted(set(got))
        for k in range(0, len(got), 60):
            p = os.path.join(ctx.sub("sel"), "s.json")
            open(p, "w").write("[" + ",".join(got[k:k + 60]) + "]")
            files.append(p)
    n = n if ctx.quick else n * 15
    jobs = []
    for k in range(n):
        j = ["-bin", prog, "-seed", ctx.seed * 1000 + k, "-n", 8, "-ops", ops]
        if profile:
            j += ["-profile", profile]
        if files:
            j += ["-scenarios", files[k % len(files)]]
        jobs.append(("cli", j))
    ctx.check_traces("CliTrace", jobs)


def cli_faults(ctx, n, budget, scen):
    """Commands that fail or are killed."""
    prog = ctx.program()
    got = ctx.simulate("MCCli", "MCCliSim.cfg", scen if ctx.quick else scen * 20, 80, ctx.seed, "COMMANDS")
    got = sorted(set(got))
    jobs = []
    for k in range(0, len(got), 15):
        p = os.path.join(ctx.sub("cmds"), "c.json")
        open(p, "w").write("[" + ",".join(got[k:k + 15]) + "]")
        jobs.append(("cliscen", ["-bin", prog, "-seed", ctx.seed * 1000 + k, "-scenarios", p]))
    for k in range(n if ctx.quick else n * 8):
        jobs.append(("clifault", ["-bin", prog, "-seed", ctx.seed * 1000 + k, "-n", budget if ctx.quick else 200]))
    ctx.check_traces("CliTrace", jobs, parallel=6)


def run_C20(ctx):
    if ctx.quick:
        ctx.model("MCSelect")
    else:
        ctx.model("MCSelect", MaxIds=2, Calls='{"AA", "BB", "CC"}', timeout=3000)
        for w in ("idsmore", "count", "both", "zero", "validcomp"):
            ctx.broken_model("MCSelect", Mut='"%s"' % w)
    cli(ctx, 12, sels=300)


def run_C21(ctx):
    if ctx.quick:
        ctx.model("MCCli")
    else:
        ctx.model("MCCli", MaxKeys=3, MaxCmds=6, timeout=3000)
        for w in ("showfirst", "ignore", "exit0", "nosave"):
            ctx.broken_model("MCCli", Mut='"%s"' % w)
    cli_faults(ctx, 6, 25, 60)
    cli(ctx, 6)
    cli(ctx, 3, profile="term")


def run_C22(ctx):
    cli(ctx, 6, profile="keys")
    cli(ctx, 6, profile="term")
    mcstore(ctx)
    store_scenarios(ctx, 20)
    store(ctx, ("rekey", 20, 60))
    crash(ctx, 4, (2, 4))


def run_C12(ctx):
    mcnet(ctx, ["exportfresh", "importfresh"])
    scenarios(ctx, 30)
    net(ctx, ("share", 160, 40), ("network", 60, 40), ("alias", 40, 30))


def run_C13(ctx):
    mcnet(ctx, ["delother"])
    scenarios(ctx, 30)
    net(ctx, ("alias", 140, 40), ("mixed", 80, 40), ("delete", 60, 40))


def run_C14(ctx):
    mcnet(ctx, ["delother"])
    scenarios(ctx, 30)
    net(ctx, ("delete", 200, 40), ("mixed", 60, 40))


def run_C17(ctx):
    mcnet(ctx)
    scenarios(ctx, 40)
    net(ctx, ("network", 100, 40), ("recv", 80, 40), ("share", 60, 40))


def run_C18(ctx):
    if ctx.quick:
        ctx.model("MCRadiogram", MaxWords=1)
    else:
        ctx.model("MCRadiogram", timeout=3000)
    num = 500 if ctx.quick else 20000
    got = ctx.simulate("MCRadiogram", "MCRadiogramSim.cfg", num, 26, ctx.seed, "RADIOGRAM", timeout=800)
    raws = ["".join(chr(c) for c in json.loads(g)) for g in got]
    jobs = []
    for k in range(0, len(raws), 250):
        p = os.path.join(ctx.sub("radio"), "r.json")
        json.dump(raws[k:k + 250], open(p, "w"))
        jobs.append(("radio", ["-seed", ctx.seed * 1000 + k, "-n", 0, "-scenarios", p]))
    for k in range(4 if ctx.quick else 80):
        jobs.append(("radio", ["-seed", ctx.seed * 1000 + 500 + k, "-n", 250]))
    ctx.check_traces("RadioTrace", jobs)


def run_C23(ctx):
    if ctx.quick:
        ctx.model("MCCrand")
    else:
        ctx.model("MCCrand", Procs="{1, 2, 3, 4}", Want=3, MaxCalls=5, MaxFails=2, timeout=3000)
        for w in ("nolock", "shortok", "swallow", "leaklock"):
            ctx.broken_model("MCCrand", Mut='"%s"' % w)
    jobs = [("crand", ["-seed", ctx.seed * 100 + k, "-n", 40 if ctx.quick else 200]) for k in range(3 if ctx.quick else 24)]
    ctx.check_traces("CrandTrace", jobs, parallel=2)


def run_C24(ctx):
    mcnet(ctx, ["recvnomark", "importfresh", "exportfresh"])
    run_scenarios(ctx, [CROSSING])
    scenarios(ctx, 60)
    net(ctx, ("network", 120, 40), ("share", 80, 40))


PLANS = {name[4:]: {"run": f} for name, f in sorted(globals().items()) if name.startswith("run_C")}
