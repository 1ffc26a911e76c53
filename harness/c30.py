"""C30: example rotations: the stats, level, version range and presses they list are the ones simulated."""
from harness.common import *
from harness import kit

BOUNDS = ("example definitions with any crit, determination, direct-hit and speed stat, level 90 or 100, five versions, any start and end version; up to three party skills at any multiple "
          "of 125 ms from -10 s to 20 s, with and without a modifier; the repository's own examples at two versions (each listed press once, in order, right level)")
OUTSIDE = "the damage of the repository's examples"
COVERS = ("stats", "valid", "invalid_level", "too_old", "too_new", "party", "party_modifier", "own", "defaults")
VERS = ("6.55", "7.0", "7.01", "7.05", "7.1")


def tasks(tier):
    t = [dict(h="h_stats", job=j) for j in ("WAR", "WHM", "SAM", "BLM", "DNC")]
    t += [dict(h="h_valid")]
    t += [dict(h="h_party", n=n) for n in (1, 2)]
    for g in GROUPS:
        t += [dict(h="h_own", group=g, version=v, level=l) for v, l in (("6.55", 90), ("7.05", 100))]
    return t


GROUPS = ("tank", "healer", "ranged", "caster", "melee")


def h_stats(env, job):
    r = kit.imp()
    from ama_xiv_combat_sim.example_rotations.specific_rotations import SpecificRotations
    a = SpecificRotations()
    version, level = env.choice("ver", VERS), env.choice("level", (90, 100))
    st = dict(wd=132, main_stat=3330, det_stat=env.int("det", 440, 4000), crit_stat=env.int("crit", 440, 4000), dh_stat=env.int("dh", 440, 4000),
              speed_stat=env.int("speed", 440, 2000), job_class=job)
    if job == "WAR":
        st["tenacity"] = env.int("ten", 440, 2000)
    given = env.flag("given")
    if given:
        st["weapon_delay"], st["healer_or_caster_strength"] = 2.5, 300
    a.add_rotation_data("x", {90: dict(stats=st, skills=("Auto",), start_version="6.55"), 100: dict(stats=st, skills=("Auto",), start_version="6.55")})
    a.set_version(version)
    a.set_level(level)
    got = a.get_stats("x")
    from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts as G
    kw = dict(st)
    kw.setdefault("weapon_delay", G.WEAPON_DELAYS[job])
    kw.setdefault("healer_or_caster_strength", G.HEALER_CASTER_STRENGTH.get(job))
    want = r.Stats(version=version, level=level, **kw)
    env.check(And(got.version == version, got.level == level), "stats of the library's version and level")
    for k in ("wd", "main_stat", "det_stat", "crit_stat", "dh_stat", "speed_stat", "tenacity", "weapon_delay", "healer_or_caster_strength", "job_class"):
        env.check(getattr(got, k) == getattr(want, k), "listed stat " + k)
    p, q = got.processed_stats, want.processed_stats
    for k in ("crit_rate", "crit_bonus", "det_bonus", "dh_rate"):
        env.check(abs(getattr(p, k) - getattr(q, k)) < 1e-9, "derived " + k)
    env.cover("stats" if given else "defaults")


def h_valid(env):
    from ama_xiv_combat_sim.example_rotations.specific_rotations import SpecificRotations
    from ama_xiv_combat_sim.example_rotations.example_rotation_utils import ExampleRotationUtils
    v, lo, hi = env.choice("v", VERS), env.choice("lo", VERS), env.choice("hi", VERS + (None,))
    lev, at = env.choice("lev", (90, 100)), env.choice("at", (90, 100))
    a = SpecificRotations()
    d = dict(stats={}, skills=(), start_version=lo)
    if hi is not None:
        d["end_version"] = hi
    a.add_rotation_data("x", {lev: d})
    a.set_version(v)
    a.set_level(at)
    ok = at == lev and VERS.index(lo) <= VERS.index(v) and (hi is None or VERS.index(v) <= VERS.index(hi))
    env.check(bool(a.rotation_is_valid("x")) == ok, "valid exactly for its level and versions")
    if not ok:
        env.check(ExampleRotationUtils.get_example_rotation_with_rb("x", None, a) is None, "an invalid example is not offered")
    env.cover("valid" if ok else "invalid_level" if at != lev else "too_old" if VERS.index(v) < VERS.index(lo) else "too_new")


def h_party(env, n):
    r = kit.imp()
    from ama_xiv_combat_sim.example_rotations.specific_rotations import SpecificRotations
    from ama_xiv_combat_sim.example_rotations.example_rotation_utils import ExampleRotationUtils
    D, SE = r.DamageSpec, r.StatusEffectSpec
    ts0 = r.TimingSpec(base_cast_time=0, animation_lock=600)
    own = [r.Skill(name="h", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=10)), r.Skill(name="i", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=20))]
    ts1 = r.TimingSpec(base_cast_time=0, animation_lock=600, application_delay=700)
    oth = [r.Skill(name="p", is_GCD=False, timing_spec=ts1, buff_spec={"": SE(duration=5000, damage_mult=1.1), "strong": SE(duration=5000, damage_mult=1.3)}),
           r.Skill(name="q", is_GCD=False, timing_spec=ts1, debuff_spec={"": SE(duration=5000, crit_rate_add=0.1), "strong": SE(duration=5000, crit_rate_add=0.3)})]
    lib = kit.library(r, {"test_job": own, "test_job2": oth})
    s = kit.stats(r)
    want = r.RotationBuilder(s, lib, fight_start_time=0)
    party = []
    for i in range(n):
        k = env.int(f"t{i}", -80, 160)
        nm = "pq"[i % 2]
        how = env.choice(f"mod{i}", (0, 1, 2))
        if how:
            kw = dict(with_condition="strong") if how == 1 else dict(ignore_application_delay=True)
            party.append((k / 8, nm, "test_job2", r.SkillModifier(**kw)))
            want.add(k / 8, nm, job_class="test_job2", skill_modifier=r.SkillModifier(**kw))
            env.cover("party_modifier")
        else:
            party.append((k / 8, nm, "test_job2"))
            want.add(k / 8, nm, job_class="test_job2")
            env.cover("party")
    for x in ("h", "i", "h"):
        want.add_next(x)
    a = SpecificRotations()
    a.add_rotation_data("x", {90: dict(stats={}, skills=("h", "i", "h"), party_skills=tuple(party), start_version="6.55")})
    a.set_version("6.55")
    a.set_level(90)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    key, out = ExampleRotationUtils.get_example_rotation_with_rb("x", rb, a)
    env.check(key == "x", "its name")
    x, y = kit.drain(out.get_skill_timing()), kit.drain(want.get_skill_timing())
    env.check(len(x) == len(y), "every listed press once")
    for e, f in zip(x, y):
        env.check(And(e.skill.name == f.skill.name, e.event_times.primary == f.event_times.primary, kit.app(e) == kit.app(f)), "press and time")
        env.check(sorted(e.skill_modifier.with_condition) == sorted(f.skill_modifier.with_condition), "conditions")


_LIB = {}


def h_own(env, group, version, level):
    """the repository's own examples of one role"""
    r = kit.imp()
    import importlib
    from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
    if (version, level) not in _LIB:
        _LIB[(version, level)] = create_skill_library(version=version, level=level)
    lib = _LIB[(version, level)]
    m = importlib.import_module(f"ama_xiv_combat_sim.example_rotations.add_{group}_rotations_to_rotation_library")
    res = {}
    getattr(m, f"add_{group}_rotations_to_rotation_library")(lib, res)
    env.check(len(res) > 0, "there are examples")
    for name, rb in res.items():
        st = rb.get_stats()
        env.check(st.level == level and st.version == version, "level and version of " + name)
        mod = importlib.import_module(f"ama_xiv_combat_sim.example_rotations.{group}.{st.job_class.lower()}_data")
        skills = getattr(mod, f"all_{st.job_class.lower()}_rotations").get_skills(name)
        ev = kit.drain(rb.get_skill_timing())
        for sk in set(skills):
            n = sum(1 for x in skills if x == sk)
            env.check(len([e for e in ev if e.skill.name == sk]) >= n, f"every press of {sk} in {name}")
        env.cover("own")
