from sockets import *


def run(c):
    c.model_async("FramingMC", "FramingMC.cfg", sub={"MaxPackets": c.pick(2, 3), "Damage": "FALSE"}, workers=2)
    c.model_async("FramingMC", "FramingMC.cfg", sub={"MaxPackets": 2, "Damage": "TRUE"}, workers=2)
    c.build()
    codec(c, "Framing", "post", "framing", c.pick(300, 5000))
    codec(c, "Framing", "resp", "responses", c.pick(120, 2000), 12)
    c.assumptions += [
        "payloads have up to 12 packets of the contents FramingGen lists (lengths around the digits of the length field), whole or damaged in one place, delivered in chunks of several sizes",
        "lengths count bytes; stray line breaks and trailing bits in base64, leading zeros, packet types above 6 and the empty payload may be read or refused"]
