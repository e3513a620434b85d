from sessions import *
import sockets


def run(c):
    c.model_async("SessionMC", "SessionMC_msg.cfg", sub={"MaxMsg": 2}, workers=2)
    c.build()
    campaign(c, "idle", c.pick(700, 6000), 26, 2, mode="virtual")
    campaign(c, "lapse", c.pick(700, 6000), 26, 2, mode="virtual")
    sockets.client(c, "life", c.pick(400, 4000), 14)
    assume(c)
    c.assumptions.append("times are exact: the clock of the bubbles is virtual; scripts step to just before, exactly to and just beyond the deadlines")
