import sys, json
sys.path.insert(0, "/verif/bin")
import kv, plans
S="/tmp/kv-sweep/scen/"
ctx = kv.Ctx("scen","quick",1)
got={}
def grab(spec, jobs, **kw):
    got[spec]=jobs
import os,shutil
ctx.check_traces = grab
sc = ctx.sub
plans.scenarios(ctx, 40); shutil.copy(got["NetTrace"][0][1][-1], S+"net.json")
g = sorted(set(ctx.simulate("MCWipe","MCWipeSim.cfg",40,60,1,"WIPES")));open(S+"wipes.json","w").write("["+",".join(g[:40])+"]")
g = sorted(set(ctx.simulate("MCPages","MCPagesSim.cfg",60,20,1,"HEIGHTS")));open(S+"heights.json","w").write("["+",".join(g[:30])+"]")
g = ctx.simulate("MCRadiogram","MCRadiogramSim.cfg",250,26,1,"RADIOGRAM",timeout=800);json.dump(["".join(chr(c) for c in json.loads(x)) for x in g],open(S+"radio.json","w"))
g = sorted(set(ctx.simulate("MCSelect","MCSelectSim.cfg",4,50,1,"SELECT")));open(S+"sel.json","w").write("["+",".join(g[:60])+"]")
g = sorted(set(ctx.simulate("MCCli","MCCliSim.cfg",60,80,1,"COMMANDS")));open(S+"cmds.json","w").write("["+",".join(g[:12])+"]")
ctx.close()
