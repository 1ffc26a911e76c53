# property -> (what is executed symbolically, oracle)
D = {
"C01": ("`StatFns` functions and `Stats`/`ProcessedStats` construction with the stat as a symbolic integer", "the published floor formulas as integer divisions with an independent constant table (harness/common.py)"),
"C02": ("`StatFns.get_time_using_speed_stat` and the press times of `RotationBuilder` with a symbolic speed stat, float arithmetic bit-exact", "integer arithmetic for the 10 ms truncation, haste and flat reductions; monotonicity as a two-run (relational) assertion"),
"C03": ("`ComputeDamageUtils.get_base_damage` for each damage class and role with symbolic stats and potency", "integer re-statement of the floored multiplication chain"),
"C04": ("two executions of `get_base_damage` that differ in one symbolic input", "relation only: the larger input never gives less damage"),
"C05": ("rates and damage for all 3^4 settings of the forcing sources, symbolic stats and bonuses", "decision table written from the statement; compensation formula"),
"C06": ("`DamageTracker`/`DamageSimulator` with every random draw replaced by a symbolic number in [0,1)", "range and rate reported by the same object; the set of critting draws is an interval of exactly the rate"),
"C07": ("`DamageSimulator` on up to three hits at symbolic times, plus 5001+ hits in one run", "products of rates, sums, and time order recomputed from the inputs"),
"C08": ("`StatusEffectTracker` on histories of applications/removals with symbolic times, durations and caps", "an interval model of one effect, written independently"),
"C09": ("`StatusEffectTracker` use counting with symbolic uses, caps and gaps", "a counter model"),
"C10": ("`compile_buffs`/`compile_debuffs` for up to four simultaneous effects with symbolic strengths, any order, priorities and allow-lists", "sum/product/conflict rules of the statement; permutation relation"),
"C11": ("target handling of `StatusEffectTracker` and `DamageBuilder`", "set membership of targets"),
"C12": ("`ComboTracker` and the rotation builder on symbolic gaps", "a state machine of last action and time per combo group"),
"C13": ("`JobResourceTracker` on symbolic gain/spend/expiry histories", "fold over the history with clamping and expiry"),
"C14": ("channeling in the rotation builder with symbolic press times", "end = min(duration, first disallowed action)"),
"C15": ("rotation builder + damage builder with symbolic press times, delays and effect windows", "effect active at snapshot or application time according to the follow-up's settings"),
"C16": ("DoT expansion of the rotation builder with symbolic press times, durations, tick offset", "arithmetic description of the tick times; refresh truncates"),
"C17": ("downtime handling with symbolic windows and hit times", "hit kept iff outside every window of its target"),
"C18": ("two runs shifted by a symbolic offset", "relation: everything shifts; first damage at 0"),
"C19": ("add_next scheduling with symbolic recasts, casts, locks, haste windows", "earliest-time recurrence"),
"C20": ("auto-attack insertion with symbolic delay, casts, channels, speed windows, downtime", "recurrence of the auto timer; known finding for casts entered with add_next"),
"C21": ("`DamageBuilder` on events of several skills and targets at symbolic times", "bijection between damaging events x targets and hits, sorted by time"),
"C22": ("getters of `Skill` for all condition subsets (symbolic flags) and variant families; has_* reports", "most specific satisfied key; existential over follow-ups and variants"),
"C23": ("`get_positional_condition` and its callers with a symbolic percentage", "floor formula per variant"),
"C24": ("`Utils` lookup on symbolic keys and query, `SpecificSkills` with symbolic presence flags, construction of all real libraries", "argmax over keys not above the query; structural equality between libraries built in different orders"),
"C25": ("kill-time estimation with symbolic HP and hit damage", "first prefix sum reaching the HP"),
"C26": ("analysis helpers with symbolic times", "filter of the hits by snapshot time"),
"C27": ("the whole pipeline run twice on the same objects, with mutation in between", "relation: equal results, inputs structurally unchanged"),
"C28": ("table import (a small pandas model) with symbolic times and columns", "same rotation entered by hand"),
"C29": ("AoE expansion with a symbolic number/order of targets and drop-off", "per-target potency from the statement"),
"C30": ("example rotation utilities with symbolic stats and party-skill times", "listed values"),
"C31": ("the real job kits: rotation builder + combo tracker + damage builder, symbolic gap between the presses", "combo table written by hand; potency with forced combo / alone as the two reference values"),
"C32": ("the real job kits with generic actions, symbolic gaps", "table of amounts and durations"),
"C33": ("the real job kits: one effect, then hits/casts at a symbolic time (every multiple of 125 ms)", "tables of strength, duration, uses written by hand; the enhanced potency is that with the condition entered manually"),
"C34": ("the real job kits, one action variant at a time, pressed at a symbolic time, and first in a sequence with a symbolic speed stat", "the table of numbers in `harness/data` (recorded from the pinned tree by `tools/gen_actions.py`, which no check runs); the recast and cast formulas of C02"),
}
