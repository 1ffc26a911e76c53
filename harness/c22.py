"""C22: conditions select the most specific matching variant of every part of a skill."""
from harness.common import *
from harness import kit

BOUNDS = "four condition names, each present or absent and spelled with any of three paddings/orders; every family of up to five variants out of a list of nine; all seven kinds of specs; effects on a skill itself or on up to three follow-ups, in any variant; conditions coming from the modifier itself, added later or removed"
OUTSIDE = "two equally specific matching variants (unspecified; only required to be one of them); more than four conditions"
COVERS = ("default", "one", "two", "three", "removed", "tie", "none", "report", "no_report")

FAM = (("",), ("", "a"), ("", "a", "b"), ("", "a", "a, b"), ("", "a,b", "b, c"), ("", "a", "b", "a,b"), ("", "c", "a,b,c"), ("", "a", "a,b", "a,b,c", "d"),
       ("a", "a, b"))
NAMES = ("a", "b", "c", "d")
KINDS = ("damage", "timing", "buff", "debuff", "follow", "combo", "resource", "channel")


def tasks(tier):
    t = [dict(h="h_best", fam=f) for f in range(len(FAM))]
    t += [dict(h="h_kind", kind=k, fam=f) for k in KINDS for f in (1, 3, 5, 7)]
    t += [dict(h="h_reports", kind=k, own=o) for k in ("buff", "debuff") for o in (0, 1, 2, "a", "b", "c", "d", "e", "f")]
    return t


def canon(k):
    return frozenset(x.strip() for x in k.split(",") if x.strip())


def spelled(env, on):
    how = env.choice("how", (0, 1, 2))
    xs = [n for n in NAMES if n in on]
    if how == 0:
        return ",".join(xs)
    if how == 1:
        return ", ".join(reversed(xs))
    return "  " + " , ".join(xs + xs[:1]) + " " if xs else ""


def best(keys, on):
    m = [k for k in keys if k <= on]
    return [k for k in m if len(k) == max(len(x) for x in m)] if m else []


def h_best(env, fam):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.utils import Utils
    keys = [canon(k) for k in FAM[fam]]
    if env.flag("rev"):
        keys.reverse()
    on = {n for n in NAMES if env.flag("on_" + n)}
    got = Utils.get_best_key(keys, set(on))
    b = best(keys, on)
    if not b:
        env.check(got not in keys, "no variant matches")
        env.cover("none")
    else:
        env.check(got in b, "most specific matching variant")
        env.cover({0: "default", 1: "one", 2: "two", 3: "three"}[len(b[0])])
        if len(b) > 1:
            env.cover("tie")


def h_kind(env, kind, fam):
    r = kit.imp()
    fkeys = FAM[fam]

    def val(i):
        if kind == "damage":
            return r.DamageSpec(potency=100 + i)
        if kind == "timing":
            return r.TimingSpec(base_cast_time=i)
        if kind in ("buff", "debuff"):
            return r.StatusEffectSpec(duration=1000 + i)
        if kind == "follow":
            return (r.FollowUp(skill=r.Skill(name=f"f{i}"), delay_after_parent_application=i),)
        if kind == "combo":
            return (r.ComboSpec(combo_group=i),)
        if kind == "resource":
            return (r.JobResourceSpec(name="x", change=i),)
        return r.ChannelingSpec(duration=i)
    field, getter = dict(damage=("damage_spec", "get_damage_spec"), timing=("timing_spec", "get_timing_spec"), buff=("buff_spec", "get_buff_spec"),
                         debuff=("debuff_spec", "get_debuff_spec"), follow=("follow_up_skills", "get_follow_up_skills"),
                         combo=("combo_spec", "get_combo_spec"), resource=("job_resource_spec", "get_job_resource_spec"),
                         channel=("channeling_spec", "get_channeling_spec"))[kind]
    vals = {k: val(i) for i, k in enumerate(fkeys)}
    on = {n for n in NAMES if env.flag("on_" + n)}
    late = env.flag("late")
    drop = env.choice("drop", (None, "a", "ab, c"))
    sk = r.Skill(name="x", **{field: vals})
    text = spelled(env, on)
    if late:
        m = r.SkillModifier(with_condition="a")
        m.remove_from_condition("a")
        m.add_to_condition(text)
    else:
        m = r.SkillModifier(with_condition=text)
    if drop is not None:
        m.remove_from_condition(drop)
        on = on - {drop}
        env.cover("removed")
    got = getattr(sk, getter)(m)
    b = best([canon(k) for k in fkeys], on)
    want = [val(i) for i, k in enumerate(fkeys) if canon(k) in b]
    env.check(any(got == w for w in want), "the most specific variant of this part is used")
    one = val(77)
    plain = r.Skill(name="y", **{field: one})
    env.check(getattr(plain, getter)(m) == one, "an unconditional part is used under any condition")


def h_reports(env, kind, own):
    """a skill reports an effect (and a party effect) exactly if it, or one of its follow-ups, has one in some variant"""
    r = kit.imp()
    SE = r.StatusEffectSpec
    EFF = {0: None, 1: SE(duration=1000, damage_mult=1.1), 2: SE(duration=1000, damage_mult=1.1, is_party_effect=True)}
    if kind == "debuff":
        other, k = "buff_spec", "debuff_spec"
    else:
        other, k = "debuff_spec", "buff_spec"
    vals = []

    def spec(c):
        if c == "a":
            vals.append(1)
            return {"": None, "k": EFF[1]}
        if c == "b":
            vals.extend((1, 2))
            return {"": EFF[1], "k": EFF[2]}
        if c == "d":
            vals.extend((1, 2))
            return {"": EFF[2], "k": EFF[1]}
        if c == "e":
            vals.append(1)
            return {"": EFF[1], "k": None}
        if c == "f":
            vals.append(2)
            return {"": EFF[2], "k": None}
        if c == "c":
            return {"": None, "k": None}
        vals.append(c)
        return EFF[c]

    fus = []
    main = spec(own)
    for i in range(env.choice("n", (0, 1, 2, 3) if own in (0, 1) else (0, 1, 2))):
        c = env.choice(f"f{i}", (0, 1, 2, "b", "d", "f") if i == 0 else (0, 1, 2))
        kw = {k: spec(c)}
        if env.flag(f"o{i}"):
            kw[other] = EFF[2]
        fus.append(r.FollowUp(skill=r.Skill(name=f"f{i}", **kw), delay_after_parent_application=0))
    where = env.choice("where", (0, 1, 2)) if fus else 0
    f = tuple(fus) if where == 0 else {"": tuple(fus)} if where == 1 else {"": (), "k": tuple(fus)}
    sk = r.Skill(name="x", follow_up_skills=f, **{k: main})
    env.check(bool(getattr(sk, "has_" + kind)) == any(v in (1, 2) for v in vals), "reports having a " + kind)
    env.check(bool(getattr(sk, "has_party_" + kind)) == (2 in vals), "reports having a party " + kind)
    env.cover("report" if vals and any(vals) else "no_report")
