from sockets import *


def run(c):
    c.model_async("SioMsgpMC", "SioMsgpMC.cfg", sub={"MaxArgs": c.pick(1, 2), "Damage": "FALSE"}, workers=2)
    c.model_async("SioMsgpMC", "SioMsgpMC.cfg", sub={"MaxArgs": 1, "Damage": "TRUE"}, workers=2)
    c.build()
    codec(c, "SioMsgp", "enc", "siomsgp", c.pick(600, 6000))
    codec(c, "SioMsgp", "dec", "siomsgp", c.pick(1500, 15000))
    codec(c, "SioMsgp", "srv", "siomsgpserver", c.pick(1000, 10000))
    for role in ("server", "client"):
        campaign(c, "events", role, "msgpack", c.pick(80, 1000))
        campaign(c, "acks", role, "msgpack", c.pick(80, 1000))
    c.assumptions += [
        "frames are built from classes of values in every width msgpack has, and damaged (SioMsgpGen); parameters are of the kinds listed there",
        "where readers may differ (extensions, maps whose keys are no strings, repeated keys, nil and floats for other parameters) the specification allows any outcome"]
