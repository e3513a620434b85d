from sockets import *


def run(c):
    impl(c, [("splitid", {}), ("latereg", {}), ("nodelete", {})])
    if c.thorough:
        impl(c, NG=2, NE=2)
        impl(c, NG=3, NA=1)
    c.build()
    all_ends(c, "acks", c.pick(250, 3000))
    campaign(c, "acks", "server", "default", c.pick(200, 2500), 30, 2, hook=-2)
    campaign(c, "events", "server", "default", c.pick(150, 1500))
    campaign(c, "binary", "server", "default", c.pick(120, 1500))
    assume(c)
