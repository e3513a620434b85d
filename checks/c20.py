from sockets import *


def run(c):
    c.model_async("HeadersMC", "HeadersMC.cfg", sub={"MaxOps": c.pick(3, 4), "Names": '{"a", "b"}', "Values": c.pick('{"", "x"}', '{"", "x", "y"}')}, workers=2)
    for d in ("drop", "old", "share", "race"):
        c.model_async("HeadersMC", "HeadersMC.cfg", sub={"Defect": '"%s"' % d}, expect=REFUTED, workers=1)
    c.build()
    codec(c, "Headers", "server", "headers", c.pick(2500, 25000), 20)
    codec(c, "Headers", "client", "headers", c.pick(600, 4000), 20)
    c.assumptions += [
        "headers are of ordinary names (those the HTTP client and server of Go add or remove themselves are left out); values set while an upgrade takes place race with it",
        "the engine's own client dials over the loopback interface, everything else is in memory"]
