from sockets import *


def run(c):
    c.build()
    client(c, "dial", c.pick(600, 6000), 4)
    client(c, "life", c.pick(400, 4000), 14)
    for par in ("default", "msgpack"):
        campaign(c, "ends", "client", par, c.pick(250, 3000))
    campaign(c, "nsps", "client", "default", c.pick(150, 1500))
    assume(c)
