from sockets import *


def run(c):
    c.build()
    all_ends(c, "events", c.pick(250, 3000), 18, 2)
    campaign(c, "events", "server", "default", c.pick(300, 4000), 30, 2)
    campaign(c, "many", "server", "default", c.pick(120, 1500), 24, 3)
    campaign(c, "nsps", "server", "default", c.pick(120, 1500))
    assume(c)
