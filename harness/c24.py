"""C24: the numbers used are those of the latest patch not after the chosen version, at the chosen level; libraries are complete and independent."""
from collections.abc import Mapping

from harness.common import *
from harness import kit

BOUNDS = ("lookup: any one to four distinct keys and any query, all integers 0..10000; skill data: any subset of five patches with data at one level and any one at the other, any queried version, both levels in both orders; "
          "libraries: patch 6.55 at level 90, and 7.0, 7.01, 7.05, 7.1 at levels 90 and 100, all jobs and skills, built alone and after another one; traits: all jobs")
OUTSIDE = "the numbers of individual skills; patches other than those listed"
COVERS = ("exact", "between", "none", "level", "version", "no_data", "complete", "again", "trait", "no_trait", "roles")

PATCHES = ("6.55", "7.0", "7.01", "7.05", "7.1")
LIBS = (("6.55", 90),) + tuple((v, lv_) for v in PATCHES[1:] for lv_ in (90, 100))


class Table(Mapping):
    """a mapping whose keys may be symbolic"""

    def __init__(self, items):
        self.rows = items

    def __getitem__(self, k):
        for a, b in self.rows:
            if bool(a == k):
                return b
        raise KeyError(k)

    def __iter__(self):
        return iter([a for a, _ in self.rows])

    def __len__(self):
        return len(self.rows)


def tasks(tier):
    t = [dict(h="h_lookup", n=n) for n in (1, 2, 3, 4)]
    t += [dict(h="h_data", kind=k) for k in ("potency", "potency_no_combo", "potency_no_pos", "duration")]
    t += [dict(h="h_traits"), dict(h="h_roles")]
    t += [dict(h="h_library", lib=i) for i in range(len(LIBS))]
    t += [dict(h="h_again", first=i, then=j) for i, j in ((0, 4), (4, 0), (1, 2), (2, 1), (8, 2), (0, 8))]
    if tier == "thorough":
        t += [dict(h="h_again", first=i, then=j) for i in range(len(LIBS)) for j in range(len(LIBS)) if i != j]
    return t


def h_lookup(env, n):
    from ama_xiv_combat_sim.simulator.utils import Utils
    keys = [env.int(f"k{i}", 0, 10000) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(Not(keys[i] == keys[j]))
    q = env.int("q", 0, 10000)
    some = Or(*[k <= q for k in keys])
    want = -1
    for i, k in enumerate(keys):
        want = ite(And(k <= q, *[Or(x > q, x <= k) for x in keys]), i, want)
    got = Utils.get_greatest_dict_key_val_less_than_query(Table([(k, f"v{i}") for i, k in enumerate(keys)]), q)
    for i in range(n):
        env.check(Iff(got == f"v{i}", want == i), "the value of the greatest key not above the query")
    env.check(Iff(got is None, Not(some)), "no value when every key is above the query")
    if bool(some):
        g = Utils.get_greatest_val_less_than_query(list(keys), q)
        env.check(And(g <= q, Or(*[g == k for k in keys]), *[Or(k > q, k <= g) for k in keys]), "the greatest value not above the query")
        env.cover("exact" if bool(g == q) else "between")
    else:
        try:
            Utils.get_greatest_val_less_than_query(list(keys), q)
            env.check(False, "no value is reported as an error")
        except ValueError:
            pass
        env.cover("none")


def h_data(env, kind):
    """values differ per level and patch; a query never sees another level's or a later patch's value"""
    from ama_xiv_combat_sim.simulator.game_data.specific_skills import SpecificSkills
    data = {}
    data[90] = {p: 100 + i for i, p in enumerate(PATCHES) if env.flag(f"has{i}")}
    only = env.choice("only", range(len(PATCHES)))
    data[100] = {PATCHES[only]: 1100 + only}
    s = SpecificSkills()
    s.add_skill_data("other", {90: {kind: {"6.55": 1}}, 100: {kind: {"6.55": 2}}})
    s.add_skill_data("skill", {lvl: {kind: dict(data[lvl])} for lvl in (90, 100)})
    v = env.choice("version", PATCHES)
    order = env.choice("order", ((90, 100), (100, 90)))
    for step, level in enumerate(order):  # the version and level can be changed later
        s.set_version(v)
        s.set_level(level)
        av = [p for p in PATCHES if p in data[level] and p <= v]
        want = data[level][av[-1]] if av else None
        env.check(s.get_skill_data("skill", kind) == want, "the value of the latest patch not after the version")
        env.check(s.get_skill_data("other", kind) == (1 if level == 90 else 2), "the value of the level")
        fn = {"potency": s.get_potency, "potency_no_combo": s.get_potency_no_combo, "potency_no_pos": s.get_potency_no_positional}.get(kind)
        if fn is not None:
            try:
                got = fn("skill")
                env.check(want is not None and got == want, "the potency of the latest patch not after the version")
            except (ValueError, AssertionError):
                env.check(want is None, "a potency is refused only when there is none")
                env.cover("no_data")
        env.cover("level" if step else "version")


def h_traits(env):
    from ama_xiv_combat_sim.simulator.game_data.get_job_class_fns import get_job_class_fns
    version, level = env.choice("lib", LIBS)
    job = env.choice("job", tuple(JOB_MOD))
    f = get_job_class_fns(version)
    want = 0.2 if job == "MNK" else 0.15 if job == "NIN" and level == 100 else 0
    env.check(f.compute_trait_haste_time_reduction(job, version, level) == want, "trait haste")
    env.check(f.compute_trait_auto_attack_delay_reduction(job, version, level) == want, "trait auto-attack delay")
    mult = 1.3 if job in HEALERS + CASTERS else 1.2 if job in RANGED else 1
    env.check(f.compute_trait_damage_mult(job, version, level) == mult, "trait damage")
    env.cover("trait" if want or mult != 1 else "no_trait")


def h_roles(env):
    from ama_xiv_combat_sim.simulator.game_data.get_job_class_fns import get_job_class_fns
    version = env.choice("version", PATCHES)
    job = env.choice("job", tuple(JOB_MOD))
    f = get_job_class_fns(version)
    for fn, jobs in ((f.isTank, TANKS), (f.isHealer, HEALERS), (f.isMelee, MELEE), (f.isCaster, CASTERS), (f.isPhysRanged, RANGED)):
        env.check(bool(fn(job)) == (job in jobs), "every job has exactly one role")
    env.check((job in f.USES_SKS) == (job in TANKS + MELEE + RANGED), "skill or spell speed")
    env.check(f.JOB_MODS[job] == JOB_MOD[job], "job modifier")
    env.cover("roles")


def specs(x):
    return list(x.values()) if isinstance(x, dict) else [] if x is None else [x]


def h_library(env, lib):
    version, level = LIBS[lib]
    kit.imp()
    L = kit.real_library(version, level)
    want = sorted(j for j in JOB_MOD if version >= "7.0" or j not in ("VPR", "PCT"))
    env.check(sorted(L.get_jobs()) == want, "all jobs of the patch")
    env.check(L.get_version() == version and L.get_level() == level, "version and level")
    job = env.choice("job", tuple(want))
    names = kit.skill_names(L, job)
    env.check(len(names) == len(set(names)) and len(names) > 1000, "skills")
    for n in names:
        s = L.get_skill(n, job)
        env.check(s.name == n, f"{n} is stored under its name")
        for d in specs(s.damage_spec):
            env.check(d is None or (d.potency is not None and d.potency >= 0), f"{job} {n} has a potency")
        for t in specs(s.timing_spec):
            env.check(t is None or (t.base_cast_time is not None and t.animation_lock is not None and t.application_delay is not None and t.base_cast_time >= 0 and t.application_delay >= 0),
                      f"{job} {n} has timings")
    try:
        L.get_skill("no such skill", job)
        env.check(False, "an unknown skill is an error")
    except KeyError:
        pass
    env.cover("complete")


def shape(x, depth=0):
    """a comparable description of a skill (its public data)"""
    if isinstance(x, dict):
        return tuple(sorted((str(k) if not isinstance(k, frozenset) else ",".join(sorted(k)), shape(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(str, x)))
    if isinstance(x, (list, tuple)):
        return tuple(shape(v, depth + 1) for v in x)
    d = getattr(x, "__dataclass_fields__", None)
    if d is not None and depth < 12:
        return (type(x).__name__,) + tuple((k, shape(getattr(x, k), depth + 1)) for k in sorted(d) if not k.startswith("_"))
    return str(x)


def build(version, level):
    import contextlib
    import io
    from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
    with contextlib.redirect_stdout(io.StringIO()):
        return create_skill_library(version=version, level=level)


def describe(L):
    out = {}
    for j in L.get_jobs():
        for n in kit.skill_names(L, j):
            if not n.startswith("Wait "):
                out[(j, n)] = shape(L.get_skill(n, j))
    return out


def h_again(env, first, then):
    """a library does not depend on which ones were built before it, nor change when others are built"""
    kit.imp()
    a = build(*LIBS[first])
    da = describe(a)
    b = build(*LIBS[then])
    db = describe(b)
    env.check(describe(a) == da, "a library does not change when another one is built")
    a2 = build(*LIBS[first])
    env.check(describe(a2) == da, "a library does not depend on those built before")
    env.check(describe(b) == db, "the second library does not change either")
    env.check(da != db, "different patches or levels differ") if (LIBS[first][1] != LIBS[then][1]) else None
    env.cover("again")
