from sockets import *


def siege(c, parser, mode, num, depth=16):
    scripts = c.scripts("HostileGen", "HostileGen.cfg", num=num, depth=depth + 2, sub={"Depth": depth, "Parser": '"%s"' % parser, "Mode": '"%s"' % mode})
    # memory is counted per process
    lines = c.drive("hostile", scripts, procs=True, parser=parser, mode=mode)
    what = "siege/%s/%s" % (parser, mode)
    c.validate("HostileTrace", "HostileTrace.cfg", lines, what, context=lambda r: scripts[r["n"]])
    c.cov.setdefault("scripts", {})[what] = len(scripts)


def run(c):
    c.model_async("HostileMC", "HostileMC.cfg", sub={"MaxFrames": c.pick(3, 5)}, workers=2)
    for d in ("shareddecoder", "recycle", "anysession", "sharedworker", "junkkills"):
        c.model_async("HostileMC", "HostileMC.cfg", sub={"Defect": '"%s"' % d}, expect=REFUTED, workers=1)
    c.build()
    for parser in ("default", "msgpack"):
        siege(c, parser, "virtual", c.pick(400, 4000))
    for parser in ("default", "msgpack"):
        siege(c, parser, "real", c.pick(64, 600))
    c.assumptions += [
        "attacks are those of HostileGen: packets of every layer whole or damaged in one place, senseless requests, connections and frames, and bounded abuse of every resource",
        "the bound on memory is 400 MB allocated on the account of one attack (the largest frame sent has 8 MB)",
        "undecided upgrade candidates are left waiting in real time only; in virtual time they are closed at once"]
