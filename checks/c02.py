from sessions import *


def run(c):
    c.model_async("Upgrade", "Upgrade_FALSE.cfg", workers=4, sub={"NS": c.pick(2, 3), "NC": c.pick(1, 2)})
    for d in c.pick(["droppaused", "noflushin"], ["nomutex", "droppaused", "noflushin", "early", "noretry", "noresume", "noflushout"]):
        c.model_async("Upgrade", "Upgrade_FALSE.cfg", workers=2, expect="is violated|(were|was) violated", sub={"Defect": '"%s"' % d})
    c.build()
    campaign(c, "upgrade", c.pick(900, 9000), 26, 1)
    campaign(c, "upgrade", c.pick(250, 3000), 36, 2)
    campaign(c, "idle", c.pick(300, 3000), 26, 2, mode="virtual")
    assume(c)
