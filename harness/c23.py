"""C23: the bonus percentage of a logged hit decides whether its positional and combo were met."""
from harness.common import *
from harness import kit

BOUNDS = "every bonus percentage 0..99 or none; four potency tables (one with equal bonus for missed positional and missed combo); initial conditions none, 'No Combo', or an extra (ignored or kept) condition; damage on the skill itself or on its follow-up; evaluated directly and through the rotation and damage builders"
OUTSIDE = "potency tables outside the list"
COVERS = ("none", "zero", "hit", "nopos", "nocombo", "nomatch", "e2e", "extra")

# full, no positional, no combo, neither; and use_min_potency of the full variant
TAB = ((370, 310, 140, 80, None), (600, 540, 180, 120, None), (500, 300, 300, 100, None), (420, 360, 200, 140, 140), (620, 560, 300, 240, 480))
KEYS = ("", "No Positional", "No Combo", "No Combo, No Positional")


def tasks(tier):
    t = []
    for tab in range(len(TAB)):
        for init in ("", "No Combo", "Extra", "Keep"):
            for where in ("skill", "follow"):
                t.append(dict(h="h_infer", tab=tab, init=init, where=where))
        t.append(dict(h="h_e2e", tab=tab))
    t.append(dict(h="h_plain"))
    for x in t:
        x["_opts"] = dict(max_concretize=120)
    return t


def pct(p, m):
    return 100 * (p - m) // p


def pot(tab, conds):
    i = (1 if "No Positional" in conds else 0) + (2 if "No Combo" in conds else 0)
    return TAB[tab][i]


def infer(env, tab, conds, ignored, b):
    """set of conditions, or None when nothing explains the bonus; b None or a number"""
    if b is None:
        env.cover("none")
        return set(conds)
    if bool(b == 0):
        env.cover("zero")
        return set(conds) | {"No Positional"}
    base = set(conds) - set(ignored)
    low = pot(tab, base | {"No Combo", "No Positional"})
    for extra, cov in (((), "hit"), (("No Positional",), "nopos"), (("No Combo",), "nocombo"), (("No Combo", "No Positional"), "neither")):
        c = base | set(extra)
        lo = low
        if TAB[tab][4] and not ({"No Positional", "No Combo"} & c):
            lo = TAB[tab][4]
        if bool(b == pct(pot(tab, c), lo)):
            env.cover(cov)
            return c | set(conds)
    env.cover("nomatch")
    return None


def spec(r, tab):
    out = {}
    for i, k in enumerate(KEYS):
        kw = {}
        if i == 0 and TAB[tab][4]:
            kw["use_min_potency"] = TAB[tab][4]
        out[k] = r.DamageSpec(potency=TAB[tab][i], **kw)
    return out


def h_infer(env, tab, init, where):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.utils import Utils
    has = env.flag("has")
    b = env.int("bonus", 0, 99) if has else None
    ign = ("Extra",)
    kw = dict(ignored_conditions_for_bonus_potency=ign)
    if where == "skill":
        sk = r.Skill(name="x", damage_spec=spec(r, tab), **kw)
    else:
        fx = (r.FollowUp(skill=r.Skill(name="z"), delay_after_parent_application=5),)  # what comes before and after the hit does not matter
        fy = (r.FollowUp(skill=r.Skill(name="y", damage_spec=r.DamageSpec(potency=1000)), delay_after_parent_application=20),)
        sk = r.Skill(name="x", follow_up_skills={k: fx + (r.FollowUp(skill=r.Skill(name="x", damage_spec=v), delay_after_parent_application=10),) + fy
                                                 for k, v in spec(r, tab).items()}, **kw)
    m = r.SkillModifier(with_condition=init, bonus_percent=b)
    conds = {init} - {""}
    want = infer(env, tab, conds, ign, b)
    try:
        got = {x.strip() for x in Utils.get_positional_condition(sk, m).split(",")} - {""}
    except ValueError:
        got = None
    env.check(got == want, "conditions inferred from the bonus")
    env.check(m.with_condition == conds, "the given modifier is left alone")
    if init in ("Extra", "Keep"):
        env.cover("extra")


def h_plain(env):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.utils import Utils
    b = env.int("bonus", 0, 99) if env.flag("has") else None
    init = env.choice("init", ("", "No Combo", "A, B"))
    m = r.SkillModifier(with_condition=init, bonus_percent=b)
    want = {x.strip() for x in init.split(",")} - {""}
    for sk in (r.Skill(name="x"), r.Skill(name="x", damage_spec=r.DamageSpec(potency=100)),
               r.Skill(name="x", damage_spec={"": r.DamageSpec(potency=100), "No Combo": r.DamageSpec(potency=50)})):
        got = {x.strip() for x in Utils.get_positional_condition(sk, m).split(",")} - {""}
        env.check(got | want == want, "a skill without positional gets no positional condition")


def h_e2e(env, tab):
    r = kit.imp()
    b = env.int("bonus", 0, 99)
    ts = r.TimingSpec(base_cast_time=0, animation_lock=0)
    sk = r.Skill(name="x", is_GCD=True, timing_spec=ts, damage_spec=spec(r, tab), combo_spec=(r.ComboSpec(("A",)),))
    A = r.Skill(name="A", is_GCD=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=100), combo_spec=(r.ComboSpec(),))
    lib = kit.library(r, [sk, A])
    s = kit.stats(r)
    k = env.int("gap", 1, 300)
    combo = bool(125 * k <= 30000)
    conds = set() if combo else {"No Combo"}
    want = infer(env, tab, conds, (), b)
    env.assume(want is not None)
    rb = r.RotationBuilder(s, lib)
    rb.add(0, "A")
    rb.add(k / 8, "x", skill_modifier=r.SkillModifier(bonus_percent=b))
    d = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
    env.check(len(d) == 2, "two hits")
    env.check(d[1][1].get_damage_spec(d[1][2]).potency == pot(tab, want), "potency explained by the bonus")
    env.cover("e2e")
