from sockets import *


def run(c):
    impl(c, [("nolock", {})])
    if c.thorough:
        impl(c, NG=2, NE=2)
        impl(c, NG=3, NA=1)
    c.build()
    all_ends(c, "binary", c.pick(250, 3000))
    campaign(c, "binary", "server", "default", c.pick(200, 2500), 30, 2, hook=-2)
    campaign(c, "acks", "server", "default", c.pick(120, 1500))
    campaign(c, "acks", "client", "default", c.pick(120, 1500))
    assume(c)
