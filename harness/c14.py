"""C14: channeling windows."""
from harness.common import *
from harness import kit
import itertools

BOUNDS = "every sequence of up to 4 (quick) or 6 (thorough) presses out of {channel, channel with an allowlist, channel with a limited allowlist, allowed skill, other skill, wait}, arbitrary gaps 0..20000 ms, arbitrary durations 0..20000 ms, 1..3 allowed uses"
OUTSIDE = "longer sequences (the tracker keeps one open channel)"
COVERS = ("natural", "interrupted", "kept", "exhausted", "wait", "rechannel", "finalized")

OPS = ("C", "L", "K", "a", "o", "W")


def tasks(tier):
    groups = {}
    for k in range(1, (4 if tier == "quick" else 6) + 1):
        for seq in itertools.product(OPS, repeat=k):
            if k >= 2 and seq[0] in ("a", "o", "W"):
                continue
            if k >= 3 and (seq.count("W") > 1 or sum(x in "CLK" for x in seq) > 2):
                continue
            groups.setdefault((k, seq[:2]), []).append("".join(seq))
    return [dict(h="h_channel", seqs=v[i:i + 30]) for _, v in sorted(groups.items()) for i in range(0, len(v), 30)]


def h_channel(env, seqs):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
    seq = env.choice("seq", seqs)
    dur = env.int("dur", 0, 20000)
    n = env.choice("n", (1, 2, 3)) if "K" in seq else 1
    CS = r.ChannelingSpec
    sk = dict(C=r.Skill(name="C", channeling_spec=CS(duration=dur)),
              L=r.Skill(name="L", channeling_spec=CS(duration=dur, skill_allowlist=("a",))),
              K=r.Skill(name="K", channeling_spec=CS(duration=dur, skill_allowlist=("a",), num_uses=n)),
              a=r.Skill(name="a"), o=r.Skill(name=env.choice("name", ("o", "Walking Dead", "The Weight")) if "o" in seq and len(seq) < 4 else "o"), W=r.Skill(name="Wait 1.00s"))
    tr = ChannelingTracker()
    want, cur = [], None
    t = env.int("t0", -3000, 3000)
    for i, op in enumerate(seq):
        if i:
            t = t + env.int(f"g{i}", 0, 20000)
        tr.process_channeling(t, sk[op], r.SkillModifier())
        if op == "W":
            env.cover("wait")
            continue
        if cur is not None:
            keep = False
            if op == "a" and cur[1] != "C":
                cur[2] -= 1
                keep = cur[2] > 0
                env.cover("kept" if keep else "exhausted")
            if not keep:
                want.append((cur[0], smin(cur[0] + dur, t)))
                env.cover("rechannel" if op in "CLK" else "interrupted")
                cur = None
        if op in "CLK":
            cur = [t, op, n if op == "K" else 10 ** 9]
    if cur is not None:
        want.append((cur[0], cur[0] + dur))
        env.cover("finalized")
        env.cover("natural")
    tr.finalize()
    got = tr.get_channeling_windows()
    env.check(len(got) == len(want), "one window per channel")
    for g, w in zip(got, want):
        env.check(And(g[0] == w[0], g[1] == w[1]), "window of the channel")
