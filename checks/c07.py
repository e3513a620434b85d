from sessions import *


def run(c):
    c.model_async("SessionMC", "SessionMC_msg.cfg", sub={"MaxMsg": c.pick(2, 3)}, workers=2)
    c.build()
    campaign(c, "end", c.pick(700, 7000), 26, 1)
    campaign(c, "end", c.pick(200, 2000), 36, 2)
    campaign(c, "lapse", c.pick(500, 5000), 26, 2, mode="virtual")
    campaign(c, "client", c.pick(200, 2000), 26, 1)
    assume(c)
