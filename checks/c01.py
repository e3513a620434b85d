from sessions import *


def run(c):
    c.model_async("SessionMC", "SessionMC_msg.cfg", sub={"MaxMsg": c.pick(2, 3)}, workers=2)
    c.build()
    campaign(c, "messages", c.pick(700, 6000), 26, 1)
    campaign(c, "messages", c.pick(200, 2000), 40, 2)
    campaign(c, "idle", c.pick(600, 5000), 26, 2, mode="virtual")
    campaign(c, "client", c.pick(300, 3000), 26, 1)
    campaign(c, "upgrade", c.pick(150, 2000), 26, 1)
    assume(c)
