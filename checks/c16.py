from sockets import *


def run(c):
    c.model_async("FramingMC", "FramingMC.cfg", sub={"MaxPackets": c.pick(2, 3), "Damage": "FALSE"}, workers=2)
    c.build()
    for i, n in enumerate((c.pick(250, 4000), c.pick(80, 1000))):
        codec(c, "Framing", ("resp", "post")[i], ("responses", "framing")[i], n, (14, 6)[i])
    c.assumptions += [
        "requests of a session come one poll at a time, each in a mode of its own; text messages are UTF-8",
        "a poll's answer is read by the specification of the mode asked for (Framing.tla), the JSONP script as a JavaScript literal without line separators"]
