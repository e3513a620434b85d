from sessions import *


def run(c):
    c.model_async("Upgrade", "Upgrade_TRUE.cfg", workers=4, sub={"NS": c.pick(2, 3), "NC": c.pick(1, 2)})
    c.model_async("Upgrade", "Upgrade_TRUE.cfg", workers=2, expect="is violated|(were|was) violated", sub={"Defect": '"noflush"'})
    c.build()
    campaign(c, "close", c.pick(700, 7000), 26, 1)
    campaign(c, "close", c.pick(200, 2000), 36, 2)
    campaign(c, "client", c.pick(600, 6000), 26, 1)
    campaign(c, "linger", c.pick(250, 2500), 12, 1, mode="virtual")
    assume(c)
