"""What the checks on the Socket.IO layer have in common."""


def campaign(c, profile, role, par, num, depth=18, ns=2, hook=0):
    """Scripts of one profile out of TLC, run against the real server or client, and the recorded traces validated by TLC."""
    c.campaigns = getattr(c, "campaigns", 0) + 1
    scripts = c.scripts("SocketIOGen", "SocketIOGen.cfg", num=num, depth=depth + 2, seed=c.seed * 100 + c.campaigns,
                        sub={"Depth": depth, "Profile": '"%s"' % profile, "NS": ns, "Role": '"%s"' % role, "Par": '"%s"' % par})
    lines = c.drive("sio", scripts, role=role, parser=par, hook=hook)
    what = "%s/%s/%s" % (profile, role, par)
    c.validate("SocketIOTrace", "SocketIOTrace.cfg", lines, what, context=lambda r: scripts[r["n"]])
    c.cov.setdefault("scripts", {})
    c.cov["scripts"][what] = c.cov["scripts"].get(what, 0) + len(scripts)


def all_ends(c, profile, num, depth=18, ns=2, hook=0):
    for role in ("server", "client"):
        for par in ("default", "msgpack"):
            campaign(c, profile, role, par, num, depth, ns, hook)


REFUTED = "is violated|(were|was) violated"


def impl(c, defects=(), **sub):
    """The implementation-shaped model of concurrent sends, acknowledgements, connects and the end; deliberately broken variants must fail."""
    c.model_async("SioImpl", "SioImpl.cfg", sub=sub, workers=2)
    for d, s in defects:
        c.model_async("SioImpl", "SioImpl.cfg", sub=dict(s, Defect='"%s"' % d), expect=REFUTED, workers=1)


def assume(c):
    c.assumptions += [
        "each script runs in a testing/synctest bubble: virtual time, in-memory connections, everything settles between steps unless the script sends on at once",
        "the application is that of SioTable.tla; handlers with variable argument lists are not covered",
        "interleavings of concurrent senders are sampled from the Go scheduler and hook yields; the models explore them exhaustively within their bounds"]


def client(c, profile, num, depth):
    """An engine.io client and the server it dials, in virtual time."""
    scripts = c.scripts("EioClientGen", "EioClientGen.cfg", num=num, depth=depth + 2, sub={"Depth": depth, "Profile": '"%s"' % profile})
    lines = c.drive("client", scripts)
    c.validate("EioClientTrace", "EioClientTrace.cfg", lines, "client/" + profile, context=lambda r: scripts[r["n"]])
    c.cov.setdefault("scripts", {})["client/" + profile] = len(scripts)


def codec(c, spec, mode, driver, num, depth=6):
    """Packets and texts (or frames) judged by a specification of the format: the real encoder, decoder and server."""
    scripts = c.scripts(spec + "Gen", spec + "Gen.cfg", num=num, depth=depth + 2, sub={"Depth": depth, "Mode": '"%s"' % mode})
    lines = c.drive(driver, scripts)
    what = "%s/%s" % (spec, mode)
    c.validate(spec + "Trace", spec + "Trace.cfg", lines, what, context=lambda r: scripts[r["n"]])
    c.cov.setdefault("scripts", {})[what] = len(scripts)
