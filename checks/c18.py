def run(c):
    c.build()
    c.model_async("PollConnMC", "PollConnMC.cfg")
    short = c.scripts("PollConnGen", "PollConnGen.cfg", sub={"Depth": c.pick(3, 3)})
    long = c.scripts("PollConnGen", "PollConnGen.cfg", num=c.pick(600, 6000), depth=300, limit=c.pick(1500, 20000))
    longer = c.scripts("PollConnGen", "PollConnGen.cfg", num=c.pick(200, 2000), depth=600, limit=c.pick(300, 3000), sub={"Depth": 30})
    scripts = short + long + longer
    lines = c.drive("pollconn", scripts)
    c.validate("PollConnTrace", "PollConnTrace.cfg", lines, "polling connection", context=lambda r: scripts[r["n"]])
    c.cov["exhaustive_scripts"] = len(short)
    c.cov["random_scripts"] = len(long) + len(longer)
    c.assumptions += ["operations are observed once the connection has settled after each step (testing/synctest, virtual time)",
                      "deadlines are not changed while an operation of their kind is pending"]
