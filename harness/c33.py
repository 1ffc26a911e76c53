"""C33: the effects of the jobs' actions: strength and duration of buffs and debuffs; actions enhanced a number of times; instant casts."""
from harness.common import *
from harness import kit

BOUNDS = ("every row of the three tables below (patch 6.55 at level 90, 7.05 at level 100, thorough also 7.1): raid and personal buffs, enhanced actions, instant casts, and which of two effects is used first (black and red mage, paladin); the action that benefits is pressed at any multiple of "
          "125 ms up to 10 s after the effect's nominal end, once or (enhanced actions) up to six times")
OUTSIDE = "effects not in the tables; a benefit at the very millisecond of the application"
COVERS = ("before", "during", "after", "party", "own", "enhanced", "used_up", "expired", "instant", "normal_cast", "second_cast", "one_used")

EW, DT = ("6.55",), ("7.05", "7.1")
ALL = EW + DT
LEVEL = {"6.55": 90, "7.05": 100, "7.1": 100}

# versions, job, action, conditions, name of the effect, side, {field: value}, duration
BUFFS = (
    (ALL, "DRK", "Edge of Shadow", "", "Darkside", 0, dict(damage_mult=1.1), 30000),
    (ALL, "DRK", "Flood of Shadow", "", "Darkside", 0, dict(damage_mult=1.1), 30000),
    (ALL, "GNB", "No Mercy", "", "No Mercy", 0, dict(damage_mult=1.2), 19960),
    (ALL, "PLD", "Fight or Flight", "", "Fight or Flight", 0, dict(damage_mult=1.25), 20000),
    (DT, "AST", "Divination", "", "Divination", 0, dict(damage_mult=1.06), 20000),
    (EW, "AST", "Divination", "", "Divination", 0, dict(damage_mult=1.06), 15000),
    (DT, "AST", "the Balance", "Big", "the Balance", 0, dict(damage_mult=1.06), 15000),
    (DT, "AST", "the Balance", "Small", "the Balance", 0, dict(damage_mult=1.03), 15000),
    (DT, "AST", "the Spear", "Big", "the Spear", 0, dict(damage_mult=1.06), 15000),
    (DT, "AST", "the Spear", "Small", "the Spear", 0, dict(damage_mult=1.03), 15000),
    (DT, "SCH", "Chain Stratagem", "", "Chain Stratagem", 1, dict(crit_rate_add=0.1), 20000),
    (EW, "SCH", "Chain Stratagem", "", "Chain Stratagem", 1, dict(crit_rate_add=0.1), 15000),
    (DT, "BRD", "Battle Voice", "", "Battle Voice", 0, dict(dh_rate_add=0.2), 20000),
    (EW, "BRD", "Battle Voice", "", "Battle Voice", 0, dict(dh_rate_add=0.2), 15000),
    (DT, "BRD", "Raging Strikes", "", "Raging Strikes", 0, dict(damage_mult=1.15), 19980),
    (ALL, "BRD", "Army's Paeon", "", "Army's Paeon", 0, dict(dh_rate_add=0.03), 45000),
    (ALL, "BRD", "Mage's Ballad", "", "Mage's Ballad", 0, dict(damage_mult=1.01), 45000),
    (ALL, "BRD", "The Wanderer's Minuet", "", "The Wanderer's Minuet", 0, dict(crit_rate_add=0.02), 45000),
    (DT, "DNC", "Devilment", "", "Devilment", 0, dict(crit_rate_add=0.2, dh_rate_add=0.2), 20000),
    (EW, "DNC", "Devilment", "", "Devilment", 0, dict(crit_rate_add=0.2, dh_rate_add=0.2), 20000),
    (ALL, "DNC", "Double Standard Finish", "", "Standard Finish", 0, dict(damage_mult=1.05), 60000),
    (ALL, "DNC", "Single Standard Finish", "", "Standard Finish", 0, dict(damage_mult=1.02), 60000),
    (ALL, "DNC", "Quadruple Technical Finish", "", "Technical Finish", 0, dict(damage_mult=1.05), 20450),
    (ALL, "DNC", "Triple Technical Finish", "", "Technical Finish", 0, dict(damage_mult=1.03), 20450),
    (ALL, "DNC", "Double Technical Finish", "", "Technical Finish", 0, dict(damage_mult=1.02), 20450),
    (ALL, "DNC", "Single Technical Finish", "", "Technical Finish", 0, dict(damage_mult=1.01), 20450),
    (DT, "RDM", "Embolden", "", "Embolden", 0, dict(damage_mult=1.05), 19950),
    (DT, "SMN", "Searing Light", "", "Searing Light", 0, dict(damage_mult=1.05), 20000),
    (DT, "PCT", "Starry Muse", "", "Starry Muse", 0, dict(damage_mult=1.05), 20350),
    (DT, "DRG", "Battle Litany", "", "Battle Litany", 0, dict(crit_rate_add=0.1), 20000),
    (EW, "DRG", "Battle Litany", "", "Battle Litany", 0, dict(crit_rate_add=0.1), 15000),
    (DT, "DRG", "Lance Charge", "", "Lance Charge", 0, dict(damage_mult=1.1), 20000),
    (EW, "DRG", "Lance Charge", "", "Lance Charge", 0, dict(damage_mult=1.1), 20000),
    (DT, "MNK", "Brotherhood", "", "Brotherhood", 0, dict(damage_mult=1.05), 19950),
    (DT, "MNK", "Riddle of Fire", "", "Riddle of Fire", 0, dict(damage_mult=1.15), 20720),
    (DT, "NIN", "Dokumori", "", "Dokumori", 1, dict(damage_mult=1.05), 21020),
    (DT, "NIN", "Kunai's Bane", "", "Kunai's Bane", 1, dict(damage_mult=1.1), 16260),
    (ALL, "RPR", "Arcane Circle", "", "Arcane Circle", 0, dict(damage_mult=1.03), 19980),
    (ALL, "RPR", "Shadow of Death", "", "Death's Design", 1, dict(damage_mult=1.1), 30000),
    (ALL, "RPR", "Whorl of Death", "", "Death's Design", 1, dict(damage_mult=1.1), 30000),
    (DT, "VPR", "Hunter's Sting", "", "Hunter's Instinct", 0, dict(damage_mult=1.1), 40000),
    (DT, "VPR", "Hunter's Bite", "", "Hunter's Instinct", 0, dict(damage_mult=1.1), 40000),
    (EW, "BRD", "Raging Strikes", "", "Raging Strikes", 0, dict(damage_mult=1.15), 19980),
    (EW, "BRD", "Radiant Finale", "1 Mage's Coda", "Radiant Finale", 0, dict(damage_mult=1.02), 15000),
    (EW, "BRD", "Radiant Finale", "1 Wanderer's Coda, 1 Mage's Coda", "Radiant Finale", 0, dict(damage_mult=1.04), 15000),
    (EW, "BRD", "Radiant Finale", "3 Coda", "Radiant Finale", 0, dict(damage_mult=1.06), 15000),
    (DT, "BRD", "Radiant Finale", "1 Mage's Coda", "Radiant Finale", 0, dict(damage_mult=1.02), 20000),
    (DT, "BRD", "Radiant Finale", "2 Coda", "Radiant Finale", 0, dict(damage_mult=1.04), 20000),
    (DT, "BRD", "Radiant Finale", "1 Army's Coda, 1 Wanderer's Coda, 1 Mage's Coda", "Radiant Finale", 0, dict(damage_mult=1.06), 20000),
    (EW, "AST", "the Balance", "Big", "the Balance", 0, dict(damage_mult=1.06), 15000),
    (EW, "AST", "the Bole", "Small", "the Bole", 0, dict(damage_mult=1.03), 15000),
    (EW, "AST", "the Ewer", "Big", "the Ewer", 0, dict(damage_mult=1.06), 15000),
    (EW, "AST", "the Spire", "Small", "the Spire", 0, dict(damage_mult=1.03), 15000),
    (EW, "RDM", "Embolden", "", "Embolden", 0, dict(damage_mult=1.05), 19950),
    (EW, "SMN", "Searing Light", "", "Searing Light", 0, dict(damage_mult=1.03), 30000),
    (EW, "DRG", "Left Eye", "", "Left Eye", 0, dict(damage_mult=1.05), 20000),
    (EW, "DRG", "Dragon Sight", "", "Dragon Sight", 0, dict(damage_mult=1.1), 20000),
    (EW, "MNK", "Brotherhood", "", "Brotherhood", 0, dict(damage_mult=1.05), 14950),
    (EW, "MNK", "Riddle of Fire", "", "Riddle of Fire", 0, dict(damage_mult=1.15), 20720),
    (ALL, "MNK", "Riddle of Wind", "", "Riddle of Wind", 0, dict(auto_attack_delay_mult=0.5, haste_time_mult=1), 15780),
    (ALL, "WAR", "Storm's Eye", "COMBO", "Surging Tempest", 0, dict(damage_mult=1.1), 31600),
    (ALL, "WAR", "Mythril Tempest", "COMBO", "Surging Tempest", 0, dict(damage_mult=1.1), 30470),
    (ALL, "SAM", "Jinpu", "COMBO", "Fugetsu", 0, dict(damage_mult=1.13, haste_time_mult=1), 40000),
    (ALL, "SAM", "Mangetsu", "COMBO", "Fugetsu", 0, dict(damage_mult=1.13, haste_time_mult=1), 40000),
    (ALL, "SAM", "Shifu", "COMBO", "Fuka", 0, dict(haste_time_mult=0.87, auto_attack_delay_mult=0.87, damage_mult=1), 40000),
    (ALL, "SAM", "Oka", "COMBO", "Fuka", 0, dict(haste_time_mult=0.87, auto_attack_delay_mult=0.87, damage_mult=1), 40000),
    (EW, "DRG", "Disembowel", "COMBO", "Power Surge", 0, dict(damage_mult=1.1), 31600),
    (DT, "DRG", "Spiral Blow", "COMBO", "Power Surge", 0, dict(damage_mult=1.1), 31600),
    (ALL, "DRG", "Sonic Thrust", "COMBO", "Power Surge", 0, dict(damage_mult=1.1), 31600),
    (DT, "DRG", "Geirskogul", "", "Life of the Dragon", 0, dict(damage_mult=1.15), 20000),
    (EW, "NIN", "Huton", "", "Huton (Huton)", 0, dict(haste_time_mult=0.85, auto_attack_delay_mult=0.85), 60000),
    (DT, "VPR", "Swiftskin's Sting", "", "Swiftscaled", 0, dict(haste_time_mult=0.85, auto_attack_delay_mult=0.85), 40000),
    (DT, "VPR", "Swiftskin's Coil", "", "Swiftscaled", 0, dict(haste_time_mult=0.85, auto_attack_delay_mult=0.85), 40000),
    (DT, "VPR", "Hunter's Coil", "", "Hunter's Instinct", 0, dict(damage_mult=1.1, haste_time_mult=1), 40000),
    (DT, "DNC", "Finishing Move", "", "Standard Finish", 0, dict(damage_mult=1.05), 60000),
)
# a plain instant action of every job that none of the other effects above touches
HIT = {"DRK": "Unmend", "GNB": "Lightning Shot", "PLD": "Shield Lob", "WAR": "Tomahawk", "RPR": "Slice", "VPR": "Writhing Snap", "DRG": "Piercing Talon", "BRD": "Sidewinder", "DNC": "Cascade",
       "MCH": "Wildfire", "NIN": "Throwing Dagger", "MNK": "The Forbidden Chakra", "AST": None, "SCH": None, "RDM": "Enchanted Riposte", "SMN": "Ruin IV", "PCT": None, "SAM": "Hissatsu: Shinten"}


# ---- actions enhanced a number of times: versions, job, presses before (2.5 s apart), action, condition that means "enhanced", what it gives, uses, duration
USES = (
    (DT, "PLD", ("Fast Blade", "Riot Blade", "Royal Authority"), "Holy Spirit", "Divine Might", "potency", 1, 30000),
    (DT, "PLD", ("Total Eclipse", "Prominence"), "Holy Circle", "Divine Might", "potency", 1, 30000),
    (EW, "PLD", ("Requiescat",), "Confiteor", "Requiescat", "potency", 4, 30000),
    (DT, "PLD", ("Imperator",), "Confiteor", "Requiescat", "potency", 4, 30000),
    (EW, "PLD", ("Requiescat",), "Blade of Faith", "Requiescat", "potency", 4, 30000),
    (DT, "PLD", ("Imperator",), "Blade of Faith", "Requiescat", "potency", 4, 30000),
    (ALL, "WAR", ("Inner Release",), "Fell Cleave", "Inner Release", "crit+dh", 3, 30000),
    (ALL, "WAR", ("Inner Release",), "Decimate", "Inner Release", "crit+dh", 3, 30000),
    (ALL, "BRD", ("Barrage",), "Refulgent Arrow", "Barrage", "hits", 1, 10000),
    (ALL, "MCH", ("Reassemble",), "Drill", "Reassemble", "crit+dh", 1, 5000),
    (ALL, "MCH", ("Reassemble",), "Air Anchor", "Reassemble", "crit+dh", 1, 5000),
    (ALL, "MCH", ("Hypercharge",), "Drill", "Overheated", "potency", 5, 10000),
    (ALL, "DRG", ("Life Surge",), "Raiden Thrust", "Life Surge", "crit", 1, 5000),
    (ALL, "NIN", ("Meisui",), "Bhavacakra", "Meisui", "potency", 1, 30000),
    (ALL, "NIN", ("Kassatsu",), "Hyosho Ranryu", "Kassatsu", 1.3, 1, 15000),
    (ALL, "RPR", ("Gibbet",), "Gallows", "Enhanced Gallows", "potency", 1, 60000),
    (ALL, "RPR", ("Gallows",), "Gibbet", "Enhanced Gibbet", "potency", 1, 60000),
    (ALL, "RPR", ("Void Reaping",), "Cross Reaping", "Enhanced Cross Reaping", "potency", 1, 60000),
    (ALL, "RPR", ("Cross Reaping",), "Void Reaping", "Enhanced Void Reaping", "potency", 1, 60000),
    (ALL, "SAM", ("Hissatsu: Yaten",), "Enpi", "Enhanced Enpi", "potency", 1, 15000),
    (DT, "VPR", ("Flanksting Strike",), "Hindsting Strike", "Hindstung Venom", "potency", 1, 60000),
    (DT, "VPR", ("Hunter's Coil",), "Twinfang Bite", "Hunter's Venom", "potency", 1, 30000),
    (DT, "VPR", ("Swiftskin's Coil",), "Twinblood Bite", "Swiftskin's Venom", "potency", 1, 30000),
    (DT, "VPR", ("Hunter's Den",), "Twinfang Thresh", "Fellhunter's Venom", "potency", 1, 30000),
    (DT, "VPR", ("Swiftskin's Den",), "Twinblood Thresh", "Fellskin's Venom", "potency", 1, 30000),
    (DT, "VPR", ("Uncoiled Fury",), "Uncoiled Twinfang", "Poised for Twinfang", "potency", 1, 60000),
    (DT, "VPR", ("Reaving Fangs",), "Steel Fangs", "Honed Steel", "potency", 1, 60000),
    (DT, "VPR", ("Steel Fangs",), "Reaving Fangs", "Honed Reavers", "potency", 1, 60000),
)


def h_uses(env, row, version):
    r = kit.imp()
    _, job, before, action, cond, what, n, dur = USES[row]
    lvl = LEVEL[version]
    lib = kit.real_library(version, lvl)

    def one(presses):
        return [x for x in kit.hits(r, version, lvl, job, presses) if x[1] == action]
    pre = [(2.5 * i, x, None, None) for i, x in enumerate(before)]
    base = one([(0.0, action, None, None)])[0]
    if what == "potency":
        full = one([(0.0, action, r.SkillModifier(with_condition=cond), None)])[0]
        env.check(full[2] > base[2], f"{action} is stronger with {cond}")
    k = env.int("gap", 2, (dur + 10000) // 125)
    s = kit.stats(r, job, version, level=lvl)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    for t, nm, mod, j in pre:
        rb.add(t, nm)
    t0 = None
    for e in kit.drain(rb.get_skill_timing()):
        b = e.skill.get_buff_spec(e.skill_modifier)
        if b is not None and b.num_uses == n:
            t0 = kit.app(e)
    env.check(t0 is not None, f"{before[-1]} gives {n} uses")
    if t0 is None:
        return
    start = pre[-1][0] * 8 + k
    times = [(start + 8 * i) * 125 for i in range(n + 1)]
    for t in times:
        env.assume(Not(t == t0))
    if job in ("PLD", "VPR", "RPR"):  # pressed too early, a spell snapshots later and the others replace the effect
        env.assume(times[0] > t0)
    got = one(pre + [((start + 8 * i) / 8, action, None, None) for i in range(n + 1)])
    left = n
    on = []
    for t in times:
        y = And(t > t0, t <= t0 + dur, left > 0)
        on.append(y)
        left = left - ite(y, 1, 0)
    if what == "hits":
        env.check(len(got) == n + 1 + ite(on[0], 2, 0), f"{action} hits three times with {cond}")
    else:
        env.check(len(got) == n + 1, "every press hits")
    for y, x in zip(on, got if what != "hits" else ()):
        if what == "potency":
            env.check(x[2] == ite(y, full[2], base[2]), f"{action} is stronger with {cond}, {n} times within {dur} ms")
        elif what == 1.3:
            env.check(abs(x[4].damage_mult - ite(y, what, 1)) < 1e-9, f"{action} is stronger with {cond}")
        else:
            crit = r.YES in (x[6].guaranteed_crit, x[4].guaranteed_crit)
            dh = r.YES in (x[6].guaranteed_dh, x[4].guaranteed_dh)
            env.check(Iff(crit, y), f"{action} crits with {cond}, {n} times within {dur} ms")
            env.check(Iff(dh, And(y, what == "crit+dh")), f"{action} direct hits with {cond}")
    env.cover("enhanced" if bool(on[0]) else "expired")
    if bool(And(on[0], Not(on[-1]))):
        env.cover("used_up")


# ---- instant casts: versions, job, action, uses, duration, spells
_FB = ("Blizzard", "Blizzard III", "Blizzard IV", "Fire", "Fire III", "Fire IV", "Flare", "Freeze", "High Blizzard II", "High Fire II")
_VER = ("Impact", "Jolt II", "Veraero II", "Veraero III", "Vercure", "Verfire", "Verraise", "Verstone", "Verthunder II", "Verthunder III")
_PAINT = ("Aero II in Green", "Aero in Green", "Blizzard II in Cyan", "Blizzard in Cyan", "Claw Motif", "Creature Motif", "Fire II in Red", "Fire in Red", "Hammer Motif", "Landscape Motif", "Maw Motif", "Pom Motif",
          "Rainbow Drip", "Starry Sky Motif", "Stone II in Yellow", "Stone in Yellow", "Thunder II in Magenta", "Thunder in Magenta", "Water II in Blue", "Water in Blue", "Weapon Motif", "Wing Motif")
SWIFT = (
    (ALL, "AST", "Swiftcast", 1, 10000, ("Fall Malefic", "Gravity II")),
    (ALL, "SCH", "Swiftcast", 1, 10000, ("Broil IV",)),
    (ALL, "SGE", "Swiftcast", 1, 10000, ("Dosis III", "Pneuma")),
    (ALL, "WHM", "Swiftcast", 1, 10000, ("Glare III", "Holy III")),
    (ALL, "BLM", "Swiftcast", 1, 10000, _FB),
    (DT, "BLM", "Swiftcast", 1, 10000, ("Flare Star",)),
    (EW, "BLM", "Swiftcast", 1, 10000, ("Thunder III", "Thunder IV", "Despair", "Paradox")),
    (ALL, "BLM", "Triplecast", 3, 10000, _FB),
    (ALL, "RDM", "Swiftcast", 1, 10000, _VER),
    (DT, "RDM", "Swiftcast", 1, 10000, ("Jolt III",)),
    (ALL, "RDM", "Acceleration", 1, 20000, ("Impact", "Veraero III", "Verthunder III")),
    (ALL, "SMN", "Swiftcast", 1, 10000, ("Ruby Catastrophe", "Ruby Rite", "Ruin III", "Slipstream", "Tri-disaster")),
    (DT, "PCT", "Swiftcast", 1, 10000, _PAINT),
    (ALL, "AST", "Lightspeed", None, 15000, ("Fall Malefic", "Gravity II")),
)


def h_swift(env, row, version):
    r = kit.imp()
    _, job, action, n, dur, spells = SWIFT[row]
    lvl = LEVEL[version]
    lib = kit.real_library(version, lvl)
    s = kit.stats(r, job, version, level=lvl)
    spell = env.choice("spell", spells)

    def starts(presses, name):
        rb = r.RotationBuilder(s, lib, fight_start_time=0)
        for t, nm in presses:
            rb.add(t, nm)
        ev = [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == name]
        return [e for i, e in enumerate(ev) if all(bool(Not(e.event_times.primary == x.event_times.primary)) for x in ev[:i])]  # a hit may be a follow-up of the same name
    plain = starts([(0.0, spell)], spell)[0].event_times.primary
    env.check(plain > 0, f"{spell} has a cast time")
    t0 = kit.app(starts([(0.0, action)], action)[0])
    m = (n or 2) + 1
    k = env.int("gap", 1, (dur + 4000) // 125)
    step = 2500 if job != "RDM" else 5500  # a hard cast gives the red mage an instant second spell
    times = [k * 125 + step * i for i in range(m)]
    for t in times:
        env.assume(Not(t == t0))
    got = starts([(0.0, action)] + [((k * 125 + step * i) / 1000 if i else k / 8, spell) for i in range(m)], spell)
    env.check(len(got) == m, "every spell is cast")
    if len(got) != m:
        return
    left = n
    for i, t in enumerate(times):
        on = And(t > t0, t <= t0 + dur)
        if n is not None:
            on = And(on, left > 0)
            left = left - ite(on, 1, 0)
        if job == "RDM" and i and bool(Not(on)):
            return  # dualcast
        env.check(got[i].event_times.primary - t == ite(on, 0, plain), f"{spell} is instant after {action}: {n} spells within {dur} ms")
        env.cover("instant" if bool(on) else "normal_cast")
        if i:
            env.cover("second_cast")


def tasks(tier):
    t = []
    for v in ALL if tier == "thorough" else ("6.55", "7.05"):
        t += [dict(h="h_buff", row=i, version=v) for i, x in enumerate(BUFFS) if v in x[0]]
        t += [dict(h="h_uses", row=i, version=v) for i, x in enumerate(USES) if v in x[0]]
        t += [dict(h="h_swift", row=i, version=v) for i, x in enumerate(SWIFT) if v in x[0]]
        t += [dict(h="h_first", row=i, version=v) for i in range(len(FIRST))] + [dict(h="h_might", version=v)]
    return t


def h_might(env, version):
    """a paladin's spell uses Divine Might before it uses Requiescat, never both"""
    r = kit.imp()
    req = "Requiescat" if version < "7.0" else "Imperator"
    k, g = env.int("first", 72, 120), env.int("gap", 16, 40)
    pre = [(0.0, "Fast Blade", None, None), (2.5, "Riot Blade", None, None), (5.0, "Royal Authority", None, None), (7.0, req, None, None)]
    spell = env.choice("spell", ("Holy Spirit", "Holy Circle"))
    got = [x for x in kit.hits(r, version, LEVEL[version], "PLD", pre + [((k + g * i) / 8, spell, None, None) for i in range(6)]) if x[1] == spell]
    env.check(len(got) == 6, "six spells")
    for i, x in enumerate(got):
        c = {"Divine Might", "Requiescat"} & set(x[3].with_condition)
        left = i <= 4 and bool((k + g * i) * 125 <= 30000)
        if i == 0:
            env.check(c == {"Divine Might"}, f"the first {spell} uses Divine Might")
        elif left:
            env.check(c == {"Requiescat"}, f"the next four {spell} use Requiescat")
        elif i == 5:
            env.check(c == set(), "then nothing is left")
    env.cover("one_used")


# job, (time in ms, action)..., the spell, later casts of it in ms, how many of those are instant
FIRST = (("BLM", ((0, "Swiftcast"), (2000, "Triplecast")), "Fire IV", (10500, 10750, 11000, 12500), 3),
         ("RDM", ((0, "Acceleration"), (1000, "Swiftcast")), "Verthunder III", (12500,), 1),
         ("RDM", ((-2000, "Verstone"), (1000, "Swiftcast")), "Verthunder III", (12500,), 1))


def h_first(env, row, version):
    """of two effects that make a spell instant only the one that comes first by the job's order is used"""
    r = kit.imp()
    job, pre, spell, later, n = FIRST[row]
    lvl = LEVEL[version]
    lib, s = kit.real_library(version, lvl), kit.stats(r, job, version, level=lvl)
    k = env.int("first", 20, 80)

    def times(presses):
        rb = r.RotationBuilder(s, lib, fight_start_time=0)
        for t, nm in presses:
            rb.add(t, nm)
        out = []
        for e in kit.drain(rb.get_skill_timing()):
            if e.skill.name == spell and not any(bool(e.event_times.primary == x) for x in out):
                out.append(e.event_times.primary)
        return out
    plain = times([(0.0, spell)])[0]
    got = times([(t / 1000, nm) for t, nm in pre] + [(k / 8, spell)] + [(t / 1000, spell) for t in later])
    env.check(len(got) == 1 + len(later), "every spell is cast")
    if len(got) != 1 + len(later):
        return
    env.check(got[0] == k * 125, "the first is instant")
    for i, t in enumerate(later):
        env.check(got[1 + i] == t + (0 if i < n else plain), f"{spell} at {t} ms: {n} more are instant, since only one effect was used")
    env.cover("one_used")



def h_buff(env, row, version):
    r = kit.imp()
    _, job, action, cond, name, side, fields, dur = BUFFS[row]
    lib = kit.real_library(version, LEVEL[version])
    party = env.flag("party")
    me = "DRK" if party or not HIT.get(job) else job
    if party and (name in PERSONAL or me == job or "'s Coda" in cond):
        return
    s = kit.stats(r, me, version, level=LEVEL[version])
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    mod = r.SkillModifier(force_combo=True) if cond == "COMBO" else r.SkillModifier(with_condition=cond) if cond else None
    rb.add(0.0, action, skill_modifier=mod, job_class=job)
    ev = [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == name and (e.skill.get_debuff_spec(e.skill_modifier) if side else e.skill.get_buff_spec(e.skill_modifier)) is not None]
    env.check(len(ev) == 1, f"{action} applies {name}")
    if len(ev) != 1:
        return
    t0 = kit.app(ev[0])
    g = env.int("gap", 1, (dur + 10000) // 125)
    hs = kit.hits(r, version, LEVEL[version], me, [(0.0, action, mod, job), (g / 8, HIT[me], None, None)])
    got = [x for x in hs if x[1] == HIT[me]]
    env.check(len(got) >= 1, "the hit is there")
    if not got:
        return
    b = got[-1][5 if side else 4]
    t = g * 125
    env.assume(Not(t == t0))
    on = And(t > t0, t <= t0 + dur)
    for k, v in fields.items():
        off = 1 if k.endswith("mult") else 0
        env.check(abs(getattr(b, k) - ite(on, v, off)) < 1e-9, f"{name}: {k} {v} for {dur} ms")
    env.cover("party" if party else "own")
    env.cover("during" if bool(on) else "before" if bool(t < t0) else "after")


PERSONAL = {"Darkside", "No Mercy", "Fight or Flight", "Raging Strikes", "Lance Charge", "Riddle of Fire", "Kunai's Bane", "Death's Design", "Hunter's Instinct", "Surging Tempest", "Fugetsu", "Fuka", "Power Surge", "Life of the Dragon",
            "Huton (Huton)", "Swiftscaled", "Riddle of Wind", "Dragon Sight"}
