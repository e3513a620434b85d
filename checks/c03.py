from sessions import *


def run(c):
    c.model_async("SessionMC", "SessionMC_up.cfg", workers=4, sub={"MaxMsg": c.pick(0, 1)})
    c.build()
    campaign(c, "probe", c.pick(800, 8000), 26, 1)
    campaign(c, "probe", c.pick(200, 2000), 36, 2)
    campaign(c, "silence", c.pick(96, 700), 16, 1, timing=(100, 900), shards=32, hook=0)
    campaign(c, "upgrade", c.pick(150, 1500), 26, 1)
    assume(c)
