from sockets import *


def run(c):
    impl(c, [("notify", {"NConn": 2, "NA": 1, "NE": 1})], NConn=3, NE=1, NG=1)
    c.build()
    all_ends(c, "nsps", c.pick(250, 3000))
    all_ends(c, "ends", c.pick(200, 2500))
    campaign(c, "many", "server", "default", c.pick(120, 1500), 24, 3)
    assume(c)
