from sockets import *


def run(c):
    c.model_async("SioTextMC", "SioTextMC.cfg", sub={"MaxArgs": c.pick(2, 3), "Damage": "FALSE"}, workers=2)
    c.model_async("SioTextMC", "SioTextMC.cfg", sub={"MaxArgs": 1, "Damage": "TRUE"}, workers=2)
    c.build()
    codec(c, "SioText", "enc", "siotext", c.pick(300, 4000))
    codec(c, "SioText", "dec", "siotext", c.pick(1000, 12000))
    codec(c, "SioText", "srv", "siotextserver", c.pick(500, 6000))
    c.assumptions += [
        "packets and texts are built from classes of names, ids, values and damages (SioTextGen); arguments are strings, numbers, booleans, null, lists and objects",
        "where readers of JSON may differ (numbers that are not plain, repeated keys, ids with leading zeros, text that is not UTF-8) the specification allows any outcome"]
