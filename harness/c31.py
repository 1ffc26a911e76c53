"""C31: the combos of all jobs: a combo action has its combo potency exactly when it continues its combo within 30 s."""
from harness.common import *
from harness import kit

BOUNDS = ("every combo link of the table below (all jobs with combos, patch 6.55 at level 90, 7.05 and 7.1 at level 100); the gap between the two actions of the link any multiple of 125 ms up to 45 s; "
          "pressed alone, after the previous action, after it was pressed twice, after another combo's starter, and forced by the log; the combos of a job that end each other or not (gunbreaker, paladin, red mage, viper)")
OUTSIDE = "actions that break a combo without being part of one"
COVERS = ("in_time", "late", "alone", "twice", "other", "forced", "variants", "reported", "reported_late", "ended", "woven")

A = {  # patch 7.05 and 7.1, level 100
    "DRK": (("Hard Slash", "Syphon Strike", "Souleater"), ("Unleash", "Stalwart Soul")),
    "GNB": (("Keen Edge", "Brutal Shell", "Solid Barrel"), ("Demon Slice", "Demon Slaughter")),
    "PLD": (("Fast Blade", "Riot Blade", "Royal Authority"), ("Total Eclipse", "Prominence")),
    "WAR": (("Heavy Swing", "Maim", "Storm's Path"), ("Heavy Swing", "Maim", "Storm's Eye"), ("Overpower", "Mythril Tempest")),
    "DNC": (("Cascade", "Fountain"), ("Windmill", "Bladeshower")),
    "MCH": (("Heated Split Shot", "Heated Slug Shot", "Heated Clean Shot"),),
    "RDM": (("Riposte", "Zwerchhau", "Redoublement"), ("Enchanted Riposte", "Enchanted Zwerchhau", "Enchanted Redoublement")),
    "DRG": (("True Thrust", "Lance Barrage", "Heavens' Thrust", "Fang and Claw"), ("Raiden Thrust", "Spiral Blow", "Chaotic Spring", "Wheeling Thrust"),
            ("Raiden Thrust", "Lance Barrage"), ("True Thrust", "Spiral Blow"), ("Doom Spike", "Sonic Thrust", "Coerthan Torment")),
    "NIN": (("Spinning Edge", "Gust Slash", "Aeolian Edge"), ("Spinning Edge", "Gust Slash", "Armor Crush"), ("Death Blossom", "Hakke Mujinsatsu")),
    "RPR": (("Slice", "Waxing Slice", "Infernal Slice"), ("Spinning Scythe", "Nightmare Scythe")),
    "SAM": (("Gyofu", "Jinpu", "Gekko"), ("Gyofu", "Shifu", "Kasha"), ("Gyofu", "Yukikaze"), ("Fuko", "Mangetsu"), ("Fuko", "Oka")),
    "VPR": (("Reawaken", "First Generation", "Second Generation", "Third Generation", "Fourth Generation"),),
}
B = dict(A, DRG=(("True Thrust", "Vorpal Thrust", "Heavens' Thrust"), ("Raiden Thrust", "Disembowel", "Chaotic Spring"), ("Raiden Thrust", "Vorpal Thrust"),
                 ("Doom Spike", "Sonic Thrust", "Coerthan Torment")),
         SAM=(("Hakaze", "Jinpu", "Gekko"), ("Hakaze", "Shifu", "Kasha"), ("Hakaze", "Yukikaze"), ("Fuko", "Mangetsu"), ("Fuko", "Oka")))
del B["VPR"]  # not in the game before 7.0
KITS = {"6.55": (90, B), "7.05": (100, A), "7.1": (100, A)}
# a second starter that replaces the first combo
OTHER = {"DRK": "Unleash", "GNB": "Demon Slice", "PLD": "Total Eclipse", "WAR": "Overpower", "DNC": "Windmill", "RDM": None, "DRG": "Doom Spike", "NIN": "Death Blossom",
         "RPR": "Spinning Scythe", "SAM": "Fuko", "MCH": None, "VPR": None}
_EX = {"GNB": (("Gnashing Fang", "Savage Claw", "Wicked Talon"),), "PLD": (("Confiteor", "Blade of Faith", "Blade of Truth", "Blade of Valor"),),
       "RDM": (("Verflare", "Scorch", "Resolution"), ("Verholy", "Scorch"), ("Riposte", "Enchanted Zwerchhau", "Redoublement"), ("Enchanted Riposte", "Zwerchhau"))}
_EX7 = dict(_EX, RDM=_EX["RDM"] + (("Enchanted Moulinet", "Enchanted Moulinet Deux", "Enchanted Moulinet Trois"),),
            DRG=(("True Thrust", "Lance Barrage", "Heavens' Thrust", "Fang and Claw", "Drakesbane"), ("True Thrust", "Spiral Blow", "Chaotic Spring", "Wheeling Thrust", "Drakesbane")),
            VPR=(("Swiftskin's Coil", "Twinblood Bite"), ("Swiftskin's Den", "Twinblood Thresh"), ("Hunter's Coil", "Twinfang Bite"), ("Hunter's Den", "Twinfang Thresh")))
# combos whose actions need not have a potency of their own without the combo
EXTRA = {"6.55": dict(_EX, DRG=(("True Thrust", "Disembowel"),)), "7.05": _EX7, "7.1": _EX7}
JOBS = ("DRK", "GNB", "PLD", "WAR", "DNC", "MCH", "RDM", "DRG", "NIN", "RPR", "SAM", "VPR")


def tasks(tier):
    t = []
    for v in KITS if tier == "thorough" else ("6.55", "7.05"):
        for j in JOBS:
            if j in KITS[v][1]:
                t += [dict(h="h_link", version=v, job=j), dict(h="h_broken", version=v, job=j)]
    for v in KITS if tier == "thorough" else ("6.55", "7.1"):
        t += [dict(h="h_report", version=v, job=j) for j in JOBS if j in KITS[v][1] or j in EXTRA[v]]
    t += [dict(h="h_variants", version=v) for v in KITS]
    for v in KITS if tier == "thorough" else ("6.55", "7.05"):
        t += [dict(h="h_groups", version=v, job=j) for j in ("GNB", "PLD", "RDM", "VPR") if groups(v, j)]
    return t


_V = (("Hunter's Coil", "Twinfang Bite"), ("Swiftskin's Coil", "Twinblood Bite"), ("Hunter's Den", "Twinfang Thresh"), ("Swiftskin's Den", "Twinblood Thresh"), ("Reawaken", "First Generation"))


def groups(version, job):
    """(starter, action in between, what continues the starter, does the action in between end that)"""
    if job == "GNB":
        return (("Gnashing Fang", "Keen Edge", "Savage Claw", 1), ("Gnashing Fang", "Demon Slice", "Savage Claw", 1), ("Keen Edge", "Demon Slice", "Brutal Shell", 1),
                ("Demon Slice", "Keen Edge", "Demon Slaughter", 1), ("Keen Edge", "Gnashing Fang", "Brutal Shell", 0), ("Demon Slice", "Gnashing Fang", "Demon Slaughter", 0))
    if job == "PLD":
        return (("Confiteor", "Fast Blade", "Blade of Faith", 1), ("Confiteor", "Total Eclipse", "Blade of Faith", 1), ("Fast Blade", "Confiteor", "Riot Blade", 0), ("Total Eclipse", "Confiteor", "Prominence", 0))
    if version < "7.0":
        return ()
    if job == "RDM":
        return (("Enchanted Moulinet", "Riposte", "Enchanted Moulinet Deux", 1), ("Riposte", "Enchanted Moulinet", "Zwerchhau", 1))
    return tuple((a, z, b, 1) for a, b in _V for z, _ in _V if z != a)


def h_groups(env, version, job):
    """which other combos end a combo, and which can be woven into it"""
    r = kit.imp()
    x, z, y, ends = env.choice("row", groups(version, job))
    g, h = env.int("gap", 1, 100), env.int("gap2", 1, 100)

    lvl = KITS[version][0]
    lib = kit.real_library(version, lvl)

    def out(presses):
        if lib.get_skill(y, job).damage_spec is None:  # what it does is decided when it is pressed
            rb = r.RotationBuilder(kit.stats(r, job, version, level=lvl), lib, fight_start_time=0)
            for t, nm, _, _ in presses:
                rb.add(t, nm)
            ev = [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == y]
            env.check(len(ev) >= 1, f"{y} is pressed")
            return any("No Combo" in e.skill_modifier.with_condition for e in ev)
        got = [e for e in kit.hits(r, version, KITS[version][0], job, presses) if e[1] == y and e[6].damage_class == r.DamageClass.DIRECT]
        env.check(len(got) >= 1, f"{y} hits")
        return "No Combo" in got[0][3].with_condition if got else None
    env.check(out([(0.0, x, None, None), ((g + h) / 8, y, None, None)]) is False, f"{y} continues {x}")
    env.check(out([(0.0, x, None, None), (g / 8, z, None, None), ((g + h) / 8, y, None, None)]) is bool(ends), f"{z} " + ("ends" if ends else "does not end") + f" the combo of {x} and {y}")
    env.cover("ended" if ends else "woven")


def links(version, job, more=()):
    """(actions before, action)"""
    out = []
    for c in KITS[version][1].get(job, ()) + more:
        for i in range(1, len(c)):
            if (c[:i], c[i]) not in out:
                out.append((c[:i], c[i]))
    return out


def potency(r, version, job, presses, name, n=1):
    """potency of the n-th hit of an action"""
    got = [x for x in kit.hits(r, version, KITS[version][0], job, presses) if x[1] == name and x[6].damage_class in (r.DamageClass.DIRECT,)]
    return got[n - 1][2] if len(got) >= n else None


def h_link(env, version, job):
    r = kit.imp()
    before, y = env.choice("link", links(version, job))
    g = env.int("gap", 1, 360)
    full = potency(r, version, job, [(0.0, y, r.SkillModifier(force_combo=True), None)], y)
    none = potency(r, version, job, [(0.0, y, None, None)], y)
    env.check(full is not None and none is not None and none < full, f"{y} is stronger in its combo than alone")
    env.cover("alone")
    t = [(2.5 * i, x, None, None) for i, x in enumerate(before)]
    last = t[-1][0]
    p = potency(r, version, job, t + [((last * 8 + g) / 8, y, None, None)], y)
    env.check(p == ite(g * 125 <= 30000, full, none), f"{y} continues {before[-1]} within 30 s")
    env.cover("in_time" if bool(g * 125 <= 30000) else "late")
    env.cover("forced")


def h_report(env, version, job):
    """a hit is reported as outside its combo exactly if it is; its potency never grows by that"""
    r = kit.imp()
    before, y = env.choice("link", links(version, job, EXTRA[version].get(job, ())))
    if kit.real_library(version, KITS[version][0]).get_skill(y, job).damage_spec is None:
        return  # hits through a follow-up, which has no conditions of its own
    g = env.int("gap", 1, 360)
    t = [(2.5 * i, x, None, None) for i, x in enumerate(before)]
    last = t[-1][0]

    def one(presses):
        got = [x for x in kit.hits(r, version, KITS[version][0], job, presses) if x[1] == y and x[6].damage_class == r.DamageClass.DIRECT]
        env.check(len(got) >= 1, f"{y} hits")
        return ("No Combo" in got[0][3].with_condition, got[0][2]) if got else (None, None)
    full, none = one([(0.0, y, r.SkillModifier(force_combo=True), None)]), one([(0.0, y, None, None)])
    env.check(And(full[0] is False, none[0] is True, none[1] <= full[1]), f"{y} alone is outside its combo, forced it is not")
    ok = bool(g * 125 <= 30000)
    p = one(t + [((last * 8 + g) / 8, y, None, None)])
    # the actions before may also strengthen it by their own effects
    env.check(And(p[0] == (not ok), p[1] >= (full[1] if ok else none[1])), f"{y} after {before[-1]} is reported as continuing it, for 30 s")
    env.cover("reported" if ok else "reported_late")


def h_broken(env, version, job):
    """the same action twice, or another combo's starter in between, does not continue the combo"""
    r = kit.imp()
    before, y = env.choice("link", links(version, job))
    g, h = env.int("gap", 1, 80), env.int("gap2", 1, 80)
    none = potency(r, version, job, [(0.0, y, None, None)], y)
    full = potency(r, version, job, [(0.0, y, r.SkillModifier(force_combo=True), None)], y)
    t = [(2.5 * i, x, None, None) for i, x in enumerate(before)]
    last = t[-1][0] * 8
    p = potency(r, version, job, t + [((last + g) / 8, y, None, None), ((last + g + h) / 8, y, None, None)], y, 2)
    env.check(p == none, f"{y} does not continue itself")
    env.cover("twice")
    z = OTHER[job]
    if z is not None and z not in before:
        p = potency(r, version, job, t + [((last + g) / 8, z, None, None), ((last + g + h) / 8, y, None, None)], y)
        env.check(p == none, f"{z} ends the combo of {y}")
        env.cover("other")
    if len(before) == 1:
        p = potency(r, version, job, [((last + g) / 8, before[0], None, None), ((last + g + h) / 8, y, None, None)] + t, y)
        env.check(p == full, f"a restarted combo continues with {y}")


def h_variants(env, version):
    """a missed combo or positional never gives a stronger hit"""
    kit.imp()
    lib = kit.real_library(version, KITS[version][0])
    job = env.choice("job", lib.get_jobs())
    from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
    for name in kit.skill_names(lib, job):
        sk = lib.get_skill(name, job)
        d = sk.damage_spec
        if not isinstance(d, dict):
            continue
        for k in d:
            base = [x for x in k if x not in ("No Combo", "No Positional")]
            if len(base) == len(k):
                continue
            a, b = SkillModifier(with_condition=", ".join(base)), SkillModifier(with_condition=", ".join(k))
            pa, pb = sk.get_damage_spec(a), sk.get_damage_spec(b)
            env.check(pa is None or pb is None or pb.potency <= pa.potency, f"{job} {name}: {', '.join(sorted(k))} is not stronger")
            env.cover("variants")
