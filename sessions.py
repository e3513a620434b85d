"""What the checks on engine.io sessions have in common."""


def campaign(c, profile, num, depth, ns, mode="real", timing=None, shards=8, what=None, hook=3):
    """Scripts of one profile out of TLC, run against the real engine, and the recorded traces validated by TLC."""
    scripts = c.scripts("SessionGen", "SessionGen.cfg", num=num, depth=depth + 2, sub={"Depth": depth, "Profile": '"%s"' % profile, "NS": ns})
    params = {"mode": mode, "hook": hook if mode == "real" else 0}
    if mode == "virtual":
        params.update(interval=25000, timeout=60000)
    if timing:
        params.update(interval=timing[0], timeout=timing[1])
        scripts = [[{"op": "timing", "interval": timing[0], "timeout": timing[1]}] + s for s in scripts]
    lines = c.drive("session", scripts, procs=mode == "real" and hook > 0, shards=shards, **params)
    c.validate("SessionTrace", "SessionTrace.cfg", lines, what or profile, context=lambda r: scripts[r["n"]])
    c.cov.setdefault("scripts", {})
    c.cov["scripts"]["%s/%s" % (profile, mode)] = c.cov["scripts"].get("%s/%s" % (profile, mode), 0) + len(scripts)


def assume(c):
    c.assumptions += [
        "clients of the harness speak the protocol: they stop polling and posting before they ask for the switch",
        "real-time runs sample schedules (scheduling points of the hooks yield, delay or hold goroutines); virtual-time runs use testing/synctest",
        "connections are in memory: what the peer wrote before it closed can be read to its end"]


def spec_models(c, thorough_only=()):
    """Exhaustive exploration of the Session specification itself."""
    c.model_async("SessionMC", "SessionMC_msg.cfg", sub={"MaxMsg": c.pick(2, 3)}, workers=2)
