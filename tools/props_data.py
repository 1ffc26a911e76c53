P("C01", "Stat formulas match the published floor formulas for every stat value",
  "For every integer stat value, level and version, the crit rate and crit bonus, direct-hit rate, determination, determination-plus-direct-hit, tenacity, speed, attack-power, weapon-damage and auto-attack factors derived from a character's stats equal the game's published floor formulas, with the constants of that level and job. The processed stats of a character expose the same values for all 21 jobs.",
  ["inputs", "configurations"], "all integer stat values in the realistic range x version/level rows x jobs",
  "The tests fix about ten stat values; a formula that is off by a floor or a constant only at other values, or only at level 100, passes.",
  ["calcs/stat_fns.py", "processed_stats.py", "game_data/game_consts.py", "game_data/job_class_fns.py"],
  [("floor formulas", S + "calcs/stat_fns.py"), ("derived stats", S + "processed_stats.py")],
  ["return values of the stat functions", "processed stats of a Stats object"])
P("C02", "Cast and recast times follow the speed and haste rules for every speed stat",
  "A skill's cast time and the wait before the next GCD equal the base time scaled by the speed stat (if the skill is affected by it), truncated to 10 ms, then reduced by haste (if affected) and by flat reductions, and never below 1.5 s for the default 2.5 s GCD. More speed never makes anything slower, and a time is always a multiple of 10 ms.",
  ["inputs", "configurations"], "all integer speed stats x listed base times x haste/flat-reduction combinations",
  "Tests check a few speed tiers; tier boundaries and floating-point truncation (e.g. 2009 ms instead of 2010 ms) show only at particular stat values.",
  ["calcs/stat_fns.py", "timeline_builders/rotation_builder.py", "specs/timing_spec.py"],
  [("speed scaling", S + "calcs/stat_fns.py get_time_using_speed_stat"), ("haste and flat reductions", S + "timeline_builders/rotation_builder.py")],
  ["times between button presses", "application time of a cast"])
P("C03", "Base damage of a hit follows the damage pipeline of its class and role",
  "The undrawn base damage of one hit (direct, magical DoT, physical DoT, pet, auto-attack) equals the documented sequence of floored multiplications for that damage class and role: party bonus, main-stat modifiers, attack power, determination (with direct-hit stat for guaranteed direct hits), tenacity for tanks, speed for DoTs and autos, weapon damage, guaranteed-crit/direct-hit rate compensation, and per-skill multiplier. It is never below 1.",
  ["inputs", "configurations"], "all integer stats and potencies in range x damage class x role x version",
  "Tests compare a handful of hard-coded numbers; an omitted or reordered floor or a role condition changes the result only for some stat combinations.",
  ["calcs/compute_damage_utils.py", "calcs/stat_fns.py"],
  [("per-class damage functions", S + "calcs/compute_damage_utils.py")], ["base damage returned for a skill"])
P("C04", "More stats or potency never lower a hit's damage; degenerate skills deal none",
  "Raising exactly one of potency, weapon damage, main stat, determination, tenacity, speed, direct-hit stat or number of distinct party roles never lowers the base damage of a hit of any damage class and role. A skill with zero potency deals exactly 0 and a skill without damage has no damage.",
  ["inputs", "configurations"], "all pairs a<=b of one stat, for every damage class and role",
  "Monotonicity relates two runs over thousands of stat values; tests compare single values.",
  ["calcs/compute_damage_utils.py", "calcs/stat_fns.py"],
  [("per-class damage functions", S + "calcs/compute_damage_utils.py get_base_damage")], ["base damage of a skill"])
P("C05", "Forced crits and direct hits: sources, conflicts, rates and compensation",
  "Crit and direct-hit rates are the stat-derived rate plus all buff and debuff bonuses, unless the skill, the skill modifier, a buff or a debuff forces the outcome: forced-yes gives rate 1, forced-no gives rate 0, contradictory sources are rejected. A guaranteed crit or direct hit converts the rate bonuses it makes useless into a damage bonus, and a guaranteed direct hit uses the combined determination and direct-hit factor.",
  ["inputs", "configurations"], "all combinations of the four sources x crit/DH stat x rate bonuses",
  "81 source combinations per kind times all stats and bonuses; tests cover a few.",
  ["calcs/compute_damage_utils.py"], [("rates", S + "calcs/compute_damage_utils.py get_crit_and_dh_rates"), ("bonus", S + "calcs/compute_damage_utils.py")],
  ["crit/DH rates", "base damage of guaranteed hits"])
P("C06", "Every sampled hit is an outcome its reported range and rate allow",
  "Whatever the random draws are, the sampled damage of a hit lies inside the reported damage range of its sampled outcome (crit or not, direct hit or not), an outcome of probability 0 never occurs, one of probability 1 always does, and the set of draws that crit (or direct-hit) has exactly the reported rate.",
  ["inputs", "random draws"], "every value in [0,1) of every random draw, per damage class and forced setting",
  "A test samples a few thousand draws; boundary draws (0, just below the rate) are practically never sampled.",
  ["trackers/damage_tracker.py", "damage_simulator.py"],
  [("sampling", S + "trackers/damage_tracker.py"), ("ranges", S + "damage_simulator.py")], ["damage matrix", "crit and DH status", "damage ranges"])
P("C07", "The reported damage distribution is consistent: ranges, expectation, totals, dps",
  "For every hit the four outcome probabilities are products of the rates and sum to 1, each outcome's range is the base damage with the outcome's multipliers and the +-5% variance, the hit's expected damage and variance are those of that distribution, totals are the sums over all hits of every skill, hits are reported in time order with their own times and targets, and dps is damage divided by the fight duration. A rotation without damage reports zero damage instead of failing, and a fight of any length is handled.",
  ["inputs", "histories"], "all stats and bonuses in range; any order and time of up to three hits",
  "Tests compare single means with tolerance; mis-attributed rows, order dependence and edge cases (no hits, all at time 0) stay invisible.",
  ["damage_simulator.py", "trackers/damage_tracker.py"],
  [("distribution", S + "trackers/damage_tracker.py"), ("totals", S + "damage_simulator.py")], ["get_damage_ranges, get_raw_damage, get_dps, get_per_skill_damage, get_damage_time"])
P("C08", "A status effect is active exactly from application to expiry",
  "A buff or debuff is active from its application through application + duration (inclusive). Reapplying extends it up to its maximum duration (or merely replaces it when it does not extend), an extend-only effect never starts one, an effect that removes another ends it at that moment, clear-all ends every buff (and no debuff on an enemy), and the strength in force is that of the latest application. Buffs never act as debuffs.",
  ["histories", "schedules"], "all sequences of applications/removals with arbitrary times, durations and caps up to the bound",
  "Window boundaries and refresh/cap interactions need particular gaps between presses; tests use a handful of schedules.",
  ["trackers/status_effect_tracker.py", "specs/status_effect_spec.py"],
  [("windows", S + "trackers/status_effect_tracker.py add_to_status_effects, expire_status_effects")], ["status effects compiled for a hit"])
P("C09", "Limited-use effects: one use per benefiting hit, stacking to a cap, then gone",
  "An effect with a number of uses loses one use exactly when a skill that benefits from it (in its allowlist, not denying it) is executed, reapplication adds uses up to the cap, and after the last use or its expiry it affects nothing.",
  ["histories"], "all interleavings of applications and (non-)benefiting uses up to the bound",
  "Off-by-one in consumption shows only for particular sequences of applications, uses and timeouts.",
  ["trackers/status_effect_tracker.py"], [("use counting", S + "trackers/status_effect_tracker.py")], ["status effects compiled for a hit"])
P("C10", "Simultaneous status effects combine by fixed rules, independent of the rest",
  "For one hit, additive bonuses of all applicable effects add, multiplicative ones multiply, an effect restricted to other skills or denied by the skill contributes nothing, of the effects in the job's priority list only the first present one counts, effects that add a condition add their name, and a forced outcome of one effect carries over.",
  ["configurations", "inputs"], "all presence/allowlist/denylist/priority combinations of three effects and all bonus values",
  "Combinations multiply (priority x allowlist x denylist x values); tests cover single effects.",
  ["trackers/status_effect_tracker.py", "trackers/status_effects.py"],
  [("aggregation", S + "trackers/status_effect_tracker.py compile_buffs, compile_debuffs")], ["status effects compiled for a hit"])
P("C11", "Debuffs act only on the targets they were applied to; buffs act on every hit",
  "A debuff affects a hit if and only if that hit's target carries it at that time; applying, consuming or removing it on one target changes no other target. Buffs are independent of the target.",
  ["histories"], "all sequences of applications, uses and removals on subsets of three targets at arbitrary times",
  "Cross-target leakage needs particular multi-target histories; almost all tests use one target.",
  ["trackers/status_effect_tracker.py"], [("per-target debuffs", S + "trackers/status_effect_tracker.py")], ["debuffs compiled per target"])
P("C12", "Combo bonuses are granted exactly when the combo was correctly and timely kept",
  "A skill that requires a combo counts as comboed exactly when the last combo action of its group was one of the required predecessors, no action broke the combo in between, and at most 30 s passed; otherwise it is treated as 'No Combo' and deals the lower potency. Starting or finishing a combo, auto-succeeding skills, forced combos, combo resets, combo-neutral skills and group-breaking rules have exactly their documented effect on the groups they name and no effect on others.",
  ["histories", "schedules"], "all press sequences out of ten kinds of skills up to the bound, with arbitrary gaps",
  "The combo state depends on the whole press history and on 30 s boundaries; tests replay a few fixed sequences.",
  ["trackers/combo_tracker.py", "specs/combo_spec.py", "timeline_builders/rotation_builder.py"],
  [("combo state", S + "trackers/combo_tracker.py")], ["'No Combo' condition and damage of a press"])
P("C13", "Job gauges hold exactly the resources gained, spent and expired, within bounds",
  "At any time the value of a job resource equals the sum of the gains and spends that happened up to then, clamped after each change to [0, cap], with timed gains gone after their duration, the whole gauge emptied when its expiry passes without a refreshing gain, and with no influence from later events or from skills outside its allowlist. A skill sees the gauge value before its own change as a condition, and only if it is allowed to use that resource.",
  ["histories", "schedules"], "all sequences of gains/spends/clears up to the bound, arbitrary times, amounts, caps, durations",
  "Clamping, expiry and refresh interact over the history; tests check a few sequences (and missed that gains at time 0 never expired).",
  ["trackers/job_resource_tracker.py", "specs/job_resource_spec.py"],
  [("gauge", S + "trackers/job_resource_tracker.py")], ["resource conditions given to a skill"])
P("C14", "A channel lasts until its duration ends or a disallowed action interrupts it",
  "A channeled skill is active from its press until its duration elapses or until the next action that does not allow it to continue (an allowlisted action keeps it, at most the given number of times; waiting keeps it; another channel replaces it), whichever is first, and every started channel is reported exactly once with that window.",
  ["histories", "schedules"], "all press sequences out of six kinds up to the bound, arbitrary gaps and durations",
  "Whether a channel survives depends on the whole following sequence; tests contain a handful.",
  ["trackers/channeling_tracker.py", "specs/channeling_spec.py"], [("channel windows", S + "trackers/channeling_tracker.py")], ["channeling windows of a rotation"])
P("C22", "Conditions select the most specific matching variant of each part of a skill",
  "When a skill has variants of its damage, timing, buff, debuff, follow-up, combo, job-resource or channeling specification keyed by sets of conditions, the variant used is one whose conditions all hold and that names the most conditions among those; the empty key is the default, spelling (spaces, order, repetition) of conditions is irrelevant, and when nothing matches the skill has no such part. Conditions added to or removed from a modifier take effect. A skill reports that it has a buff, a debuff, or a party-wide one, exactly if it or one of its follow-ups has one in some variant.",
  ["configurations", "inputs"], "all subsets of four conditions x families of variants x eight kinds of specification",
  "The number of condition subsets times variants is large; tests use one or two conditions (and missed that conditional channeling crashed).",
  ["skills/skill.py", "skills/skill_modifier.py", "utils.py"],
  [("best key", S + "utils.py get_best_key"), ("variants", S + "skills/skill.py")], ["get_damage_spec and the other getters of a Skill"])
P("C23", "A logged bonus percentage decides whether positional and combo were met",
  "When a hit carries the bonus percentage recorded in a log, its potency is the one whose positional/combo conditions explain that percentage: floor(100*(1 - minimum potency / potency)); percentage 0 means the positional was missed; conditions that the skill ignores for this purpose are dropped before and restored after; without a percentage nothing changes. A percentage no variant explains is reported as an error, never silently treated as some variant.",
  ["inputs", "configurations"], "every percentage x potency tables x initial conditions, on the skill or its follow-up",
  "Rounded percentages collide and depend on the potencies; tests sample a few jobs' values.",
  ["utils.py", "skills/skill_modifier.py", "timeline_builders/rotation_builder.py"],
  [("inference", S + "utils.py get_positional_condition")], ["conditions and damage of the hit"])
P("C15", "A hit gets the buffs, debuffs and gauge in force at its snapshot time",
  "The effects that count for a hit are those in force when it snapshots: the end of the cast minus the 0.5 s snapshot window (the press itself for instants and shorter casts). Follow-ups and damage-over-time ticks take the buffs and the debuffs of their parent's snapshot, or of their own application time, as their two snapshot flags say; gauge conditions are read at the snapshot unless the skill says at application. An effect counts from its application up to and including the millisecond at which its duration is over (an effect applied at the very millisecond of the snapshot is unspecified). Simultaneous follow-ups take effect in the listed order, after their parent. A modifier can make a cast instant or drop the application delay.",
  ["inputs", "histories"], "all relative times of effect and hit x cast, delay and duration values x snapshot flags",
  "Boundary milliseconds and flag combinations; tests have effects far away from the boundaries.",
  ["timeline_builders/rotation_builder.py", "timeline_builders/damage_builder.py", "sim_data/skill_timing_info.py"],
  [("snapshot times", S + "timeline_builders/rotation_builder.py"), ("snapshot and application order", S + "timeline_builders/damage_builder.py")],
  ["status effects recorded for each hit", "damage of each hit"])
P("C16", "Damage over time ticks once every 3 s while it lasts; a refresh restarts it",
  "Each application of a damage-over-time effect ticks at its application and every 3 s from then on, before its duration is over, or until the same effect is applied again to the same target; other targets and other effects are independent, and no tick is counted twice or lost. With server-tick snapping all ticks fall on the server tick grid. Dropping trailing ticks removes exactly the ticks after the last other event.",
  ["inputs", "histories"], "all application times of up to three applications x durations x targets x snapping offset",
  "Refresh arithmetic depends on the exact gap between applications; tests use one or two gaps.",
  ["timeline_builders/rotation_builder.py"],
  [("DoT expansion, refresh, snapping, trailing ticks", S + "timeline_builders/rotation_builder.py")], ["skill timing", "damage instances"])
P("C17", "Nothing damages a target during its downtime; everything else stays",
  "A damaging event is removed for a target exactly if its snapshot or its application falls into a downtime window of that target that covers its damage class (start inclusive, end exclusive); other targets, other damage classes, and skills that only apply effects are untouched. Windows are given for all targets or per target, in seconds, and mean the same times whether the timeline is absolute or counted from the first damage.",
  ["inputs", "histories"], "all window bounds in ms x all event times x damage classes x up to three targets",
  "Tests put events well inside or outside of a window; boundary milliseconds and per-target tables are untested.",
  ["timeline_builders/rotation_builder.py"], [("downtime filter", S + "timeline_builders/rotation_builder.py")], ["skill timing", "damage instances"])
P("C18", "Only relative times matter; the timeline starts at the first damage",
  "Without a given fight start, time 0 of the timeline is the first damage dealt, pre-pull actions come before 0, and shifting all presses by the same amount changes neither the timeline nor any hit. With a given fight start, times are those given.",
  ["inputs", "histories"], "all shifts and press times of rotations with effects, casts, DoTs, combos, gauge, autos",
  "A relation between two runs for every shift; tests fix one timeline.",
  ["timeline_builders/rotation_builder.py", "timeline_builders/damage_builder.py"], [("origin", S + "timeline_builders/rotation_builder.py")],
  ["skill timing", "damage instances"])
P("C19", "Buttons are pressed as early as GCD, cast, animation lock and haste allow",
  "In a rotation entered as a sequence each skill is pressed at the earliest time at which the previous cast or animation lock is over and, for GCD skills, the recast started by the previous GCD is over; recast and cast use the haste effects in force at the press, and timing variants the conditions in force. A timed press happens at its given time to the millisecond, whatever the order of the calls, and does not delay the sequence. Presses at the same time all happen, each with its own conditions; same-named skills of different jobs may coincide. The press report lists every press at its time.",
  ["inputs", "histories"], "all sequences of up to four presses of five kinds x locks, casts, recasts, haste windows",
  "Combinatorially many sequences and timing values; tests use a few rotations with fixed timings.",
  ["timeline_builders/rotation_builder.py"], [("press times", S + "timeline_builders/rotation_builder.py")], ["get_skill_timing and button press timing"])
P("C20", "Auto-attacks follow the weapon delay, speed effects, casts and downtime",
  "With autos enabled, an auto fires every weapon delay (reduced by the speed effects in force when it fires, and by the job's trait) from the first to the last event; it waits for the end of casts, channels and downtime, targets the enemy being attacked, and is the job's own auto skill. What allies do changes none of that, effects that were ended count no more, and without damage there are no autos. Entering the presses in another order does not matter.",
  ["inputs", "histories"], "weapon delays, landing delays, speed windows, cast/channel times, downtime, target switches",
  "Cadence interacts with every other event in time; tests contain three auto timelines.",
  ["timeline_builders/rotation_builder.py"], [("autos", S + "timeline_builders/rotation_builder.py")], ["autos in the skill timing"],
  note="One known finding: casts of a rotation entered with add_next do not hold back autos. ")
P("C21", "Every damaging event becomes exactly one hit per target, in time order",
  "The damage instances of a rotation are exactly the damaging presses, follow-ups and DoT ticks, once per target, at their own application times, in time order, with their own potency and target; skills without damage give none. This holds for timed rotations and sequences, also when events coincide or the same skill hits several times at once under different effects.",
  ["inputs", "histories"], "up to four presses of seven kinds at all times (ties included), one or two targets",
  "Losses and mix-ups show only for particular orders and ties; tests check one total.",
  ["timeline_builders/rotation_builder.py", "timeline_builders/damage_builder.py", "damage_simulator.py"],
  [("event queue", S + "timeline_builders/damage_builder.py")], ["damage instances"])
P("C27", "Recomputing gives the same result, and inputs are never changed",
  "Asking a rotation for its timeline twice gives the same timeline; adding a press after a computation gives what a fresh builder with all presses gives; one downtime table, skill modifier, skill library or damage builder can be used for several rotations without influencing one another.",
  ["inputs", "histories"], "computation histories (twice, extended, interleaved) x press times and effect durations",
  "State left over from a previous computation shows only in particular histories; tests compute once.",
  ["timeline_builders/rotation_builder.py", "timeline_builders/damage_builder.py", "trackers/status_effect_tracker.py"],
  [("state of the builders", S + "timeline_builders/")], ["skill timing and damage instances of repeated computations"])
P("C29", "Area attacks hit every target once, with drop-off for all but the first",
  "A skill used on a list of targets hits each of them once; all targets but the first take the potency reduced by the skill's drop-off, in every variant; follow-ups marked for the primary target happen only there and others for every target; effects of one target count only for hits on it. Target lists are comma separated and blanks do not matter.",
  ["inputs", "configurations"], "one to ten targets x drop-offs x variants x follow-up flags x cast and delay values",
  "Tests use two or three targets; the tenth target was wrong.",
  ["timeline_builders/rotation_builder.py", "timeline_builders/damage_builder.py", "skills/skill.py"],
  [("targets", S + "timeline_builders/rotation_builder.py"), ("drop-off", S + "skills/skill.py")], ["damage instances"])
P("C25", "The estimated kill time is the first hit that brings the boss' HP to 0",
  "For every sample, the kill time of a boss is the time of the hit at which the damage of all rotations together, in time order, first reaches its HP (equality kills); a sample in which the total does not reach it has no kill time. Every hit of every rotation counts once; the order in which rotations are added does not matter; samples are judged separately. A limit break deals exactly the given exact damage, or the given mean within 5 percent, whatever its potency and other conditions, and is rejected when neither is given.",
  ["inputs", "random draws", "histories"], "any HP, hit times (ties included) and draws, for one to three rotations with up to four hits",
  "Ties, exact equality and interleavings of rotations occur for particular times and HP only; the tests run one estimate per case.",
  ["ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py", "damage_simulator.py"],
  [("merging and cumulative damage", "ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py estimate_kill_time"), ("limit breaks", S + "trackers/damage_tracker.py")],
  ["estimate_kill_time: kill times, cumulative damage, times"])
P("C26", "Analysis results cover exactly the hits snapshotted until the asked time",
  "The expected damage snapshotted until a time is the sum over exactly the hits whose snapshot is at or before that time; at regular intervals there is a row with that sum at every multiple of the interval before the last snapshot and a final row at the last snapshot. The snapshot time of every hit is that of its press, follow-up, or tick. The expected best of k runs is the mean over the trials of the largest of the k drawn results.",
  ["inputs", "random draws"], "any snapshot times and damages of up to four hits x query times in ms; draws",
  "A boundary millisecond is included or excluded only for particular times; tests ask at round times.",
  ["ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py", "damage_simulator.py"],
  [("until a time", "ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py"), ("snapshot times", S + "timeline_builders/damage_builder.py")],
  ["get_damage_snapshotted_before_time and its interval variant", "expected maximum of k runs"])
P("C28", "A rotation read from a table equals the same rotation entered by hand",
  "A rotation read from a CSV table gives the timeline that entering its rows by hand gives: time in seconds (with or without decimals), skill, optional other job, conditions and optional target list of each row, whatever the case and order of the column names, without a targets column too, and in any order of rows. A missing file adds nothing, and what is returned lists one entry per row.",
  ["inputs", "configurations"], "tables of up to three rows with any times and row kinds x header variants",
  "Tests read two fixed files (and need files that are not there).",
  ["rotation_import_utils/csv_utils.py", "timeline_builders/rotation_builder.py"],
  [("table import", S + "rotation_import_utils/csv_utils.py populate_rotation_from_csv")], ["skill timing of the filled builder", "listed rows"],
  note="pandas' reader is replaced by a stand-in in the symbolic run; replays use the real one. ")
P("C30", "Example rotations use their listed stats, level, version range and presses",
  "An example rotation is offered exactly for its level and its versions; its stats are the listed ones at the skill library's version and level, with the job's defaults for what is not listed; every listed press appears once and in order, and every listed party skill once at its time with its modifier.",
  ["inputs", "configurations"], "any listed stats x level x version range; up to three party skills at any time; all of the repository's examples at two versions",
  "Tests only check that the totals of a few examples are close to known numbers.",
  ["ama_xiv_combat_sim/example_rotations/specific_rotations.py", "ama_xiv_combat_sim/example_rotations/example_rotation_utils.py"],
  [("stats and validity", "ama_xiv_combat_sim/example_rotations/specific_rotations.py"), ("presses", "ama_xiv_combat_sim/example_rotations/example_rotation_utils.py")],
  ["get_stats, rotation_is_valid, skill timing of the example"])

P("C24", "Numbers are those of the latest patch not after the chosen one, at that level",
  "A looked-up value is that of the latest patch not after the chosen version, at the chosen level; a value that does not exist there is an error, never another level's or a later patch's. Every supported version and level has a complete library (all jobs, every skill with its potencies and timings), which does not depend on, and is not changed by, libraries built before or after it. Trait haste, trait damage, roles and job modifiers are those of the job at that version and level.",
  ["configurations", "inputs", "histories"], "any keys and query; any subset of patches with data x version x level; all supported libraries, jobs and skills, in any order of building",
  "Tests build each version in its own process and look at a few numbers; shared state between libraries or a value taken from a later patch shows only in other combinations.",
  ["utils.py", "game_data/specific_skills.py", "game_data/job_class_fns.py", "game_data/job_class_fns_data.py", "skills/create_skill_library.py", "skills/skill_library.py"],
  [("lookup", S + "utils.py get_greatest_dict_key_val_less_than_query"), ("skill data", S + "game_data/specific_skills.py"), ("library", S + "skills/create_skill_library.py")],
  ["looked-up values", "skills of a library", "traits"])
P("C31", "Every job's combo actions are stronger exactly as part of their combo",
  "For every job and combo, an action has its combo potency exactly when the previous action of its combo was used at most 30 s before and the combo was not continued, restarted or replaced since; pressed alone, twice, late or after another combo's starter it has its lower potency. A hit is reported as outside its combo exactly when it is. Of a job's separate combos, the ones that end each other do so and the others can be woven into each other. A missed combo or positional never makes a hit stronger.",
  ["histories", "configurations"], "every combo link of every job at two patches (levels 90 and 100) x any gap up to 45 s x the ways to break it",
  "Tests check the potency totals of a few fixed sequences per job; expiry and breaking of most combos are never tried.",
  ["game_data/class_skills", "trackers/combo_tracker.py", "timeline_builders/rotation_builder.py"],
  [("combo data", S + "game_data/class_skills"), ("combo state", S + "trackers/combo_tracker.py")], ["potency of each hit of a rotation"])
P("C32", "Potions, death, waiting and limit breaks act the same for every job",
  "A potion raises the main stat by its amount for 29.97 s after it takes effect and exists from its patch on. Death ends all of one's own effects, combos and gauges; weakness and brink of death also lower the main stat to 75% and 50% for 100 s, the later one replacing the earlier. Waiting x s delays the next action by exactly x s. Every job has its role's three limit breaks; only those of damage dealers deal damage.",
  ["histories", "configurations"], "every job x patch x any gap between the action and the hit; all waits from 0.00 to 9.99 s",
  "Tests use one potion in a few rotations and one death at one time.",
  ["game_data/generic_skills/add_generic_skills_to_library.py", "game_data/generic_skills/generic_skills_data.py", "game_data/lb_skills/add_lbs_to_skill_library.py"],
  [("generic actions", S + "game_data/generic_skills/add_generic_skills_to_library.py"), ("limit breaks", S + "game_data/lb_skills/add_lbs_to_skill_library.py")],
  ["effects on each hit", "times of the next action", "number of hits"])
P("C33", "Raid and personal effects have their strength, duration and number of uses",
  "Each job's buffs and debuffs (raid-wide, personal, songs, dances, cards, haste) act with their published strength exactly from when they take effect until their duration ends, on the user's hits and, if party-wide, on everyone's. An action that enhances others enhances exactly the listed number of them within its duration. An instant-cast effect makes exactly the listed number of spells instant within its duration, for every spell it covers, and the others keep their cast time. Where two such effects would serve the same spell, only the one that comes first for the job is used.",
  ["histories", "configurations"], "about 70 effects, 28 enhancements and 14 instant-cast effects (every covered spell) at two patches x any gap up to 10 s after the effect's end",
  "Tests check totals of one rotation per job; an effect that is too long, too strong, granted once too often, or never granted in another order of presses stays within the tolerance or is not exercised (Twinfang Thresh never got its venom).",
  ["game_data/class_skills", "trackers/status_effect_tracker.py", "timeline_builders/rotation_builder.py"],
  [("effect data", S + "game_data/class_skills"), ("effect state", S + "trackers/status_effect_tracker.py")], ["effects, potency and forced outcomes of each hit", "snapshot time of each spell"])
P("C34", "Every action has the numbers of its patch, under each of its conditions",
  "For every job, patch and level, pressing an action alone, under any one of its conditions, in or out of its combo, gives exactly the recorded hits (how many, how long after the press, potency, damage class, guaranteed outcomes, on one target or, for area actions, with fall-off on the others), effects (strength, duration, uses, what they are limited to) and gauge changes of that patch, and holds up the following actions for exactly its recast, cast and animation lock at any speed stat.",
  ["inputs", "configurations"], "about 9500 action variants at six patch/level pairs x any press time x any speed stat up to 3000",
  "Tests check the total damage of one rotation per job within a tolerance; most numbers of most actions, and nearly all delays, can change without any test noticing.",
  ["game_data/class_skills", "game_data/specific_skills.py", "timeline_builders/rotation_builder.py", "skills/skill.py"],
  [("action data", S + "game_data/class_skills"), ("data lookup", S + "game_data/specific_skills.py"), ("timing", S + "timeline_builders/rotation_builder.py:RotationBuilder")],
  ["hits, effects, gauge changes and press times of a rotation with one action"])
