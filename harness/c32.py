"""C32: actions every job has: potions, death and weakness, waiting, limit breaks."""
from harness.common import *
from harness import kit

BOUNDS = ("all jobs at patch 6.55 (level 90), 7.0 and 7.05 (level 100, potions also at level 90; thorough also 7.1): one potion used at 0 s and a hit at any multiple of 125 ms up to 35 s; a death, weakness or brink of death at 5..15 s between an effect, a "
          "combo or gauge action before it and a hit up to 110 s after it; two of them 1..90 s apart; every wait from 0.00 s to 9.99 s; the limit breaks of every job")
OUTSIDE = "potion and death exactly at the millisecond of a hit; more than two deaths"
COVERS = ("potion", "potion_over", "no_potion", "death", "weak", "brink", "recovered", "replaced", "combo_lost", "gauge_lost", "wait", "lb_damage", "lb_none")

# an instant weaponskill or ability of every job that deals damage
HIT = {"DRK": "Unmend", "GNB": "Lightning Shot", "PLD": "Shield Lob", "WAR": "Tomahawk", "RPR": "Slice", "DRG": "Piercing Talon", "BRD": "Sidewinder", "DNC": "Cascade", "NIN": "Throwing Dagger",
       "MNK": "The Forbidden Chakra", "RDM": "Fleche", "SAM": "Hissatsu: Shinten", "VPR": "Writhing Snap", "MCH": "Ricochet", "SCH": "Ruin II", "AST": "Macrocosmos", "WHM": "Assize", "SGE": "Phlegma III",
       "SMN": "Ruin IV", "BLM": "Xenoglossy", "PCT": "Holy in White"}
POTS = (("Grade 7 Tincture", 223, "6"), ("Grade 8 Tincture", 262, "6"), ("Grade 1 Gemdraught", 351, "7.0"), ("Grade 2 Gemdraught", 392, "7.05"))
LIBS = {"6.55": 90, "7.0": 100, "7.05": 100, "7.1": 100}
SAMPLE = ("DRK", "WHM", "SAM", "BRD", "RDM")


def tasks(tier):
    t = []
    for v in LIBS if tier == "thorough" else ("6.55", "7.0", "7.05"):
        t += [dict(h="h_potion", version=v)] + [dict(h="h_potion", version=v, level=90)] * (v != "6.55") + [dict(h="h_wait", version=v, block=-1), dict(h="h_lb", version=v)]
        for kind in ("Death", "Weakness", "Brink of Death"):
            t += [dict(h="h_death", version=v, kind=kind), dict(h="h_lost", version=v, kind=kind)]
        t.append(dict(h="h_twice", version=v))
    t += [dict(h="h_wait", version="7.05", block=b) for b in range(20)]
    return t


def jobs(version):
    return tuple(j for j in HIT if version >= "7.0" or j not in ("VPR", "PCT"))


def last(hs, name):
    got = [x for x in hs if x[1] == name]
    return got[-1] if got else None


def h_potion(env, version, level=None):
    r = kit.imp()
    job = env.choice("job", jobs(version))
    level = level or LIBS[version]
    lib = kit.real_library(version, level)
    name, add, since = env.choice("pot", POTS)
    env.check(lib.has_skill(name, job) == (version >= since), f"{name} exists from {since}")
    if version < since:
        env.cover("no_potion")
        return
    g = env.int("gap", 1, 280)
    lock, delay = (1300, 890) if version < "7.0" else (650, 625)
    t = g * 125
    env.assume(Not(t == delay))
    x = last(kit.hits(r, version, level, job, [(0.0, name, None, None), (g / 8, HIT[job], None, None)]), HIT[job])
    env.check(x is not None, "the hit is there")
    if x is None:
        return
    on = And(t > delay, t <= delay + 29970)
    env.check(x[4].main_stat_add == ite(on, add, 0), f"{name} adds {add} main stat for 29.97 s")
    env.check(And(x[4].damage_mult == 1, x[4].main_stat_mult == 1, x[4].crit_rate_add == 0), "and nothing else")
    s = kit.stats(r, job, version, level=level)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    rb.add_next(name)
    rb.add_next(HIT[job])
    ev = [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == HIT[job]]
    env.check(ev[0].event_times.primary == lock, f"{name} locks for {lock} ms")
    env.cover("potion" if bool(on) else "potion_over")


MULT = {"Death": 1, "Weakness": 0.75, "Brink of Death": 0.5}


def h_death(env, version, kind):
    """everything ends at death; the main stat penalty lasts 100 s"""
    r = kit.imp()
    job = env.choice("job", SAMPLE)
    add = 262
    k = env.int("when", 40, 120)
    g = env.int("gap", 1, 880)
    t, d = (k + g) * 125, k * 125
    x = last(kit.hits(r, version, LIBS[version], job, [(0.0, "Grade 8 Tincture", None, None), (k / 8, kind, None, None), ((k + g) / 8, HIT[job], None, None)]), HIT[job])
    env.check(x is not None, "the hit is there")
    if x is None:
        return
    env.check(x[4].main_stat_add == 0, f"{kind} ends all effects")
    env.check(abs(x[4].main_stat_mult - ite(t <= d + 100000, MULT[kind], 1)) < 1e-9, f"{kind}: main stat x{MULT[kind]} for 100 s")
    h = env.int("early", 1, 30)  # a hit before it is not affected
    y = last(kit.hits(r, version, LIBS[version], job, [(0.0, "Grade 8 Tincture", None, None), ((k - h) / 8, HIT[job], None, None), (k / 8, kind, None, None)]), HIT[job])
    env.check(And(y[4].main_stat_mult == 1, y[4].main_stat_add == ite((k - h) * 125 > 1000, add, y[4].main_stat_add)), "a hit before is not affected")
    env.cover({"Death": "death", "Weakness": "weak", "Brink of Death": "brink"}[kind])
    if bool(t > d + 100000):
        env.cover("recovered")


def h_twice(env, version):
    """the later penalty replaces the earlier one"""
    r = kit.imp()
    job = env.choice("job", SAMPLE)
    a, b = env.choice("kinds", (("Weakness", "Brink of Death"), ("Brink of Death", "Weakness"), ("Weakness", "Weakness"), ("Brink of Death", "Death"), ("Weakness", "Death")))
    g, h = env.int("gap", 8, 720), env.int("hit", 1, 880)
    x = last(kit.hits(r, version, LIBS[version], job, [(0.0, a, None, None), (g / 8, b, None, None), ((g + h) / 8, HIT[job], None, None)]), HIT[job])
    env.check(abs(x[4].main_stat_mult - ite(h * 125 <= 100000, MULT[b], 1)) < 1e-9, f"{b} replaces {a}")
    on = b != "Death" and bool(h * 125 <= 100000)
    env.check([str(n) for n in x[4].status_effects if "Weak" in str(n) or "Brink" in str(n)] == ([b] if on else []), f"the report names {b} alone")
    env.cover("replaced")


COMBO = {"DRK": ("Hard Slash", "Syphon Strike"), "SAM": ("Gekko", None), "RDM": ("Riposte", "Zwerchhau"), "WAR": ("Heavy Swing", "Maim"), "RPR": ("Slice", "Waxing Slice")}


def h_lost(env, version, kind):
    """combos and gauges do not survive"""
    r = kit.imp()
    job = env.choice("job", ("DRK", "RDM", "WAR", "RPR", "BRD"))
    k, g = env.int("when", 1, 60), env.int("gap", 1, 60)
    lvl = LIBS[version]
    if job == "BRD":  # the coda of a song
        def coda(presses):
            rb = r.RotationBuilder(kit.stats(r, job, version, level=lvl), kit.real_library(version, lvl), fight_start_time=0)
            for t, nm in presses:
                rb.add(t, nm)
            ev = [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == "Radiant Finale"]
            return sorted(ev[0].skill_modifier.with_condition)
        env.check(coda([(0.0, "Mage's Ballad"), ((k + g) / 8, "Radiant Finale")]) == ["1 Mage's Coda"], "a song gives a coda")
        env.check(coda([(0.0, "Mage's Ballad"), (k / 8, kind), ((k + g) / 8, "Radiant Finale")]) == [], f"{kind} clears the gauge")
        env.cover("gauge_lost")
        return
    a, b = COMBO[job]

    def pot(presses):
        return last(kit.hits(r, version, lvl, job, presses), b)[2]
    none = pot([(0.0, b, None, None)])
    full = pot([(0.0, a, None, None), ((k + g) / 8, b, None, None)])
    env.check(full > none, f"{a}, {b} is a combo")
    env.check(pot([(0.0, a, None, None), (k / 8, kind, None, None), ((k + g) / 8, b, None, None)]) == none, f"{kind} ends combos")
    env.cover("combo_lost")


def h_wait(env, version, block):
    r = kit.imp()
    job = env.choice("job", SAMPLE) if block < 0 else "DRK"
    lib = kit.real_library(version, LIBS[version])
    s = kit.stats(r, job, version, level=LIBS[version])

    def start(names):
        rb = r.RotationBuilder(s, lib, fight_start_time=0)
        for n in names:
            rb.add_next(n)
        return [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == HIT[job]]
    n = env.choice("w", range(50 * block, 50 * block + 50) if block >= 0 else (0, 1, 7, 10, 57, 99, 100, 250, 999))
    w = f"Wait {n // 100}.{n % 100:02d}s"
    env.check(lib.has_skill(w, job), f"{w} exists")
    ev = start([w, HIT[job]])
    env.check(len(ev) == 1 and ev[0].event_times.primary == n * 10, f"{w} passes {n * 10} ms")
    ev2 = start([w, w, HIT[job]])
    env.check(len(ev2) == 1 and ev2[0].event_times.primary == n * 20, "waiting adds up")
    env.cover("wait")


LOCKS = {"tank": ((0, 1930), (0, 3860), (0, 3860)), "healer": ((2000, 2100), (2000, 5130), (2000, 8100)), "melee": ((2000, 3860), (3000, 3860), (4500, 3700)), "caster": ((2000, 3100), (3000, 5100), (4500, 8100)),
         "ranged": ((2000, 3100), (3000, 3100), (4500, 3700))}


def h_lb(env, version):
    """limit breaks: damage dealers deal exactly the damage of the log, the others none"""
    r = kit.imp()
    job = env.choice("job", jobs(version))
    n = env.choice("lb", (1, 2, 3))
    d = env.choice("damage", (1, 123456, 2000000))
    role = "tank" if job in TANKS else "healer" if job in HEALERS else "melee" if job in MELEE else "caster" if job in CASTERS else "ranged"
    lib = kit.real_library(version, LIBS[version])
    s = kit.stats(r, job, version, level=LIBS[version])
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    rb.add_next(f"LB {n}")
    rb.add_next(HIT[job])
    ev = kit.drain(rb.get_skill_timing())
    lb = [e for e in ev if e.skill.name == f"LB {n}"]
    cast, lock = LOCKS[role][n - 1]
    env.check(len(lb) == 1 and (job in ("MNK", "NIN") or lb[0].event_times.primary == max(0, cast - 500)), f"LB {n} of a {role} is cast for {cast} ms")
    hs = kit.hits(r, version, LIBS[version], job, [(0.0, f"LB {n}", r.SkillModifier(with_condition=f"Exact Damage: {d}"), None)])
    if role in ("tank", "healer"):
        env.check(len(hs) == 0, f"LB {n} of a {role} deals no damage")
        env.cover("lb_none")
    else:
        env.check(len(hs) == 1 and hs[0][1] == f"LB {n}", f"LB {n} of a {role} is one hit")
        env.cover("lb_damage")
