"""Helpers that build small rotations through the repository's public classes (imported lazily)."""


def imp():
    """namespace with the public classes the harnesses use"""
    class N:
        pass
    from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
    from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
    from ama_xiv_combat_sim.simulator.sim_consts import SimConsts
    from ama_xiv_combat_sim.simulator.skills.skill import Skill
    from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
    from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
    from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
    from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
    from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
    from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
    from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
    from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
    from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
    from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec
    from ama_xiv_combat_sim.simulator.stats import Stats
    from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
    from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder
    from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import SnapshotAndApplicationEvents
    from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
    n = N()
    for k, v in list(locals().items()):
        if k not in ("N", "n"):
            setattr(n, k, v)
    n.YES, n.NO, n.DEF = ForcedCritOrDH.FORCE_YES, ForcedCritOrDH.FORCE_NO, ForcedCritOrDH.DEFAULT
    return n


def stats(r, job="test_job", version="test", **kw):
    d = dict(wd=126, weapon_delay=3.0, main_stat=2945, det_stat=1620, crit_stat=2377, dh_stat=1048, speed_stat=400,
             job_class=job, version=version)
    if job in ("test_tank_job", "WAR", "DRK", "PLD", "GNB"):
        d["tenacity"] = 700
    d.update(kw)
    return r.Stats(**d)


def library(r, skills, jobs=("test_job",), version="test", priority=None, resources=(), breakers=()):
    """the same skills for every job in `jobs`; skills may also be a dict job -> skills"""
    lib = r.SkillLibrary(version=version)
    if not isinstance(skills, dict):
        skills = {j: skills for j in jobs}
    for j, sks in skills.items():
        lib.set_current_job_class(j)
        if priority is not None:
            lib.set_status_effect_priority(priority)
        for g, b in breakers:
            lib.add_combo_breaker(g, b)
        for nm, cfg in resources:
            lib.add_resource(nm, cfg)
        for s in sks:
            lib.add_skill(s)
    return lib


def drain(q):
    """events of a rotation timeline in processing order"""
    out = []
    while not q.is_empty():
        out.append(q.get_next())
    return out


def app(e):
    """application time of an event"""
    return e.event_times.primary if e.event_times.secondary is None else e.event_times.secondary


def ms8(env, name, lo8, hi8):
    """a button time given in seconds that is exact in binary: multiples of 125 ms; returns (seconds, ms)"""
    k = env.int(name, lo8, hi8)
    return k / 8, k * 125


_REAL = {}


def real_library(version, level):
    """the repository's own library (built once per process; the code treats it as read-only)"""
    import contextlib
    import io
    if (version, level) not in _REAL:
        from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
        with contextlib.redirect_stdout(io.StringIO()):
            _REAL[(version, level)] = create_skill_library(version=version, level=level)
    return _REAL[(version, level)]


def hits(r, version, level, job, presses, **kw):
    """damage instances of timed presses [(seconds, name, modifier or None, job or None)] by a player of a job:
    (time, name, potency, modifier, buffs, debuffs, damage spec)"""
    lib = real_library(version, level)
    s = stats(r, job, version, level=level)
    rb = r.RotationBuilder(s, lib, fight_start_time=0, **kw)
    for t, nm, mod, j in presses:
        rb.add(t, nm, skill_modifier=mod, job_class=j)
    out = []
    for x in r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing()):
        d = x[1].get_damage_spec(x[2])
        out.append((x[0], x[1].name, None if d is None else d.potency, x[2], x[3][0], x[3][1], d))
    return out


def skill_names(lib, job):
    import contextlib
    import io
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        lib.print_skill_names(job)
    return f.getvalue().splitlines()
