from sessions import *
import sockets


def run(c):
    c.model_async("SessionMC", "SessionMC_two.cfg", sub={"MaxMsg": c.pick(1, 2)}, workers=2)
    c.build()
    campaign(c, "many", c.pick(300, 3000), 40, 3)
    campaign(c, "many", c.pick(60, 1500), 50, 5)
    for role in ("server", "client"):
        for par in ("default", "msgpack"):
            sockets.campaign(c, "many", role, par, c.pick(80, 1200), 24, 3, hook=-2)
    sockets.codec(c, "Admission", "any", "admission", c.pick(200, 2000), 14)
    assume(c)
