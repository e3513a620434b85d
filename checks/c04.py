from sockets import *


def run(c):
    c.model_async("AdmissionMC", "AdmissionMC.cfg", sub={"NReq": 1}, workers=2)
    if c.tier == "thorough":
        c.model_async("AdmissionMC", "AdmissionMC.cfg", sub={"NReq": 2}, workers=4)
    for d in ("method", "block", "leave"):
        c.model_async("AdmissionMC", "AdmissionMC.cfg", sub={"NReq": 1, "Defect": '"%s"' % d}, expect=REFUTED, workers=1)
    c.build()
    codec(c, "Admission", "any", "admission", c.pick(900, 12000), 14)
    c.assumptions += [
        "servers of engine.io and of Socket.IO take turns; requests are made in memory, WebSocket handshakes over in-memory connections, in virtual time",
        "handshakes with repeated or invalid parameters other than those AdmissionGen lists are not tried (an invalid JSONP index is C16)"]
