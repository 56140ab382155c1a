"""Writes properties.jsonl (the text of the properties lives here, one place)."""
import json, os

SIM = "ama_xiv_combat_sim/simulator/"
RB = SIM + "timeline_builders/rotation_builder.py"
DB = SIM + "timeline_builders/damage_builder.py"
EV = SIM + "timeline_builders/snapshot_and_application_events.py"
SE = SIM + "trackers/status_effect_tracker.py"
CT = SIM + "trackers/combo_tracker.py"
JR = SIM + "trackers/job_resource_tracker.py"
CH = SIM + "trackers/channeling_tracker.py"
DT = SIM + "trackers/damage_tracker.py"
DS = SIM + "damage_simulator.py"
KT = "ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py"
RA = "ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py"
CSV = SIM + "rotation_import_utils/csv_utils.py"
SK = SIM + "skills/skill.py"
LIB = SIM + "skills/create_skill_library.py"
GJ = SIM + "game_data/generic_job_class.py"
GS = SIM + "game_data/generic_skills/add_generic_skills_to_library.py"
CD = SIM + "calcs/compute_damage_utils.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["RotationBuilder.get_skill_timing/get_button_press_timing", "DamageBuilder.get_damage_instances", "DamageSimulator.get_per_skill_damage"],
                               hook_needed=None)))


p("C01", "Replayability",
  "The same rotation, statistics, configuration and random seed give the same button timings, damage instances, per-skill damage, samples, DPS, kill times and printed exports in every run. The outcome does not depend on the process, the hash seed, the wall clock, or what the process computed before.",
  ["inputs", "schedules", "histories"], "all rotations x interpreter hash seeds x wall-clock behaviours (jumps, backwards) x preceding work in the process",
  "Tests run once, in one interpreter with one hash seed and one history; set iteration order, clock reads and leaked state vary only between processes.",
  [RB, DB, DS, KT, EV], [("condition sets joined in a fixed order", RB), ("time.time only for the verbose message", DS), ("all randomness through numpy's global generator", DT)])

p("C02", "Isolation between simultaneous users",
  "Callers that share a skill library and statistics but use their own builders and simulators get exactly the results they would get alone, however their work interleaves. This includes building skill libraries for different patches or levels at the same time: each library holds only the data of its own patch and level. (The random samples themselves come from numpy's shared generator and are not covered.)",
  ["schedules"], "all interleavings of two to four callers at line granularity of the library's code",
  "Tests are single threaded and sequential; a shared mutable default, cache or module-level setting shows only if another caller runs in between.",
  [LIB, GJ, GS, RB, DB, DS, SIM + "game_data/specific_skills.py"], [("per-library copy of the version and level", GJ), ("deep copies of presses, modifiers and settings", RB + ", " + SIM + "skills/skill_library.py")])

p("C03", "Interruption leaves builders usable",
  "If a computation is interrupted at an arbitrary point (the user's interrupt or running out of memory), repeating it afterwards on the same library, statistics, rotation builder, damage builder and kill-time estimator gives the same result as if the interruption had never happened. The interruption itself is reported to the caller, never swallowed; an interrupted addition of an action has either happened completely or not at all.",
  ["crash_points"], "every executed line of the library as an interruption point, one or more interruptions, then a retry",
  "No test interrupts anything; there are thousands of points between which builders hold half-updated queues and trackers.",
  [RB, DB, DS, KT, LIB], [("timeline state rebuilt from the presses on every request", RB), ("trackers reset on every request", DB)])

p("C04", "Results depend only on what was added",
  "A rotation's results depend only on the set of timed actions and the sequence of untimed actions added so far: not on the order in which timed actions were submitted, on results requested in between or repeatedly, or on earlier use of the damage builder. Arguments passed in by the caller (modifiers, downtime windows, damage instances, statistics, library) are never modified, and changing the press list or the library settings that were handed out changes no result.",
  ["histories", "schedules"], "all histories of add / request / reconfigure operations and all submission orders of the same timed actions",
  "Tests add everything in time order and ask once; leftover state between requests and submission-order effects need histories.",
  [RB, DB, DS], [("canonical order of timed actions", RB), ("state cleared at the start of each request", RB + ", " + DB), ("deep copies of caller data", RB + ", " + DS)])

p("C05", "Every hit is delivered exactly once",
  "Every press produces exactly one damage instance per target for each damaging part of the skill - the skill itself, each of its follow-ups - at its due time: none lost, none invented, none duplicated, whatever the order, delay or overlap of the presses. Instances come out in time order, each traceable by its event id to the press's snapshot time, target and skill; follow-ups happen after their parent and in the listed order. The list of button presses and its printed export hold every press once, in time order.",
  ["schedules", "fault_sequences", "histories"], "all press schedules with delays, duplicates, drops, reordering, simultaneous presses, multi-target skills and follow-up chains",
  "Tests check fixed rotations of a few skills; collisions of snapshot and application times between overlapping skills are schedule dependent.",
  [RB, DB, EV, DS], [("event queue ordered by time then follow-up index", EV), ("re-queueing at application time", DB), ("event ids", EV)])

p("C06", "Hits use the effects in force at their snapshot",
  "Each hit carries exactly the buffs of the player and the debuffs of its own target that are in force at the moment it snapshots: effects that land later, or ended before, do not count, and effects gained between snapshot and application change nothing. Follow-ups snapshot buffs and debuffs with the parent or at their own application as specified, a skill's own effects apply only after its own hit, and allow-lists, deny-lists and effect priorities are respected.",
  ["schedules", "fault_sequences"], "all placements of effect applications and expirations relative to the snapshot and application times of casts, instants, follow-ups and ticks",
  "Tests place effects at a few hand-picked instants; the boundary cases (same millisecond, in-flight hits, multi-target offsets) depend on the schedule.",
  [DB, SE, RB], [("snapshot and application split into two events", DB), ("priority list and allow/deny lists", SE)])

p("C07", "Status-effect lifetime",
  "A status effect is in force from its application up to and including its end time; re-applying extends the remaining time up to the cap (or keeps it, if it does not extend), adds uses up to the cap and takes over the newest strength, and an extend-only effect never starts one. Each consideration by an eligible hit or press consumes one use and an effect without uses left is gone; effects that expire or clear others end them at that moment.",
  ["histories", "schedules", "fault_sequences"], "all histories of applications, re-applications, consumptions, expirations and clears, including late and missed re-applications",
  "The tracker tests cover single re-applications at fixed times; the state is the product of the full history.",
  [SE, DB, RB], [("expire before every event", SE), ("add/extend/expire/clear", SE)])

p("C08", "Damage-over-time ticks",
  "A DoT ticks on each of its targets every 3 s from its application (or, when configured, from the first server tick at or after it) until its duration ends or it is re-applied to that target, never twice for the same tick; each tick uses the snapshot of its own application as specified. Targets and different DoTs do not influence each other, and with trailing DoTs ignored no tick comes after the last event of the rotation.",
  ["schedules", "fault_sequences"], "all schedules of applications and re-applications (early, late, simultaneous, on overlapping target sets)",
  "Tests cover one or two refreshes; early refresh, multiple targets and tick alignment interact.",
  [RB, DB], [("per-target consolidation of applications", RB), ("tick generation", RB)])

p("C09", "Auto-attacks",
  "With autos enabled the player auto-attacks first at the first damage, then repeatedly after the weapon delay shortened by the speed effects in force at that time, until the end of the rotation; each auto hits the player's most recent main target. No auto starts inside the player's own timed casts or channels (it waits until they end; party members' actions do not matter) or in downtime of the target attacked last (it resumes when the window ends, or once neither stands in the way).",
  ["schedules", "fault_sequences"], "all schedules of casts, channels, haste effects, target switches and downtime",
  "Tests cover a handful of fixed rotations; the auto timeline is a feedback loop over everything before it.",
  [RB, CH], [("auto loop", RB), ("channel windows", CH)])

p("C10", "Nothing lands in downtime",
  "No damage of the affected kind is snapshotted or applied on a target within one of its downtime windows (start inclusive, end exclusive), including the later hits of multi-target skills, and all other damage is unaffected. Windows given without target apply to every target; effects of skills pressed in downtime still happen when no damage of theirs is removed.",
  ["fault_sequences", "schedules"], "all windows (per target, per damage class, adjacent, covering snapshot, application or both) x all rotations",
  "Tests use fixed windows on fixed rotations; boundaries against snapshot, application and per-target offsets need search.",
  [RB], [("downtime filter on snapshot and application time", RB)])

p("C11", "Sequenced presses keep the game's timing rules",
  "In a sequence each skill is pressed as early as the rules allow: not before the previous cast (GCD or not) and animation lock ended, and a GCD not before the previous GCD's recast, with cast and recast times following the speed stat, haste effects, flat reductions and the minimum GCD in force at that press. Hits snapshot 0.5 s before a cast ends (never before the press) and apply after the application delay; unless a fight start is given, time is shifted so that the first damage is at zero, consistently for presses, hits and downtime.",
  ["schedules", "fault_sequences", "configurations"], "all sequences of GCDs, off-GCDs, casts, waits and speed effects, with stalls and missed presses",
  "Tests check a few sequences; timing is a feedback loop through speed effects and queues.",
  [RB, SIM + "calcs/stat_fns.py"], [("sequence processing", RB), ("shift to first damage", RB)])

p("C12", "Combos",
  "A combo action succeeds exactly if the required previous action of its combo group was itself successful, was the last action in that group, and happened at most 30 s earlier, or if it is forced or automatic; otherwise the hit is marked as failed and the chain is reset. Different groups do not affect each other unless declared to break one another, and actions without combos affect nothing.",
  ["histories", "fault_sequences"], "all histories of combo actions with drops, duplicates, swaps, stalls around 30 s, and breakers",
  "Tests cover short fixed chains; the state depends on the whole history.",
  [CT, DB, RB], [("last successful action per group", CT)])

p("C13", "Job resources",
  "The resource level seen by an eligible hit is the sum of all gains and losses before it, clamped to between zero and the maximum at every step, counting only gains still lasting, and zero once the resource as a whole has expired; it is seen at snapshot, or at application where so specified. Resources do not influence each other and only listed skills see them.",
  ["histories", "fault_sequences"], "all histories of gains, spends, refreshes, expirations and clears, with missed and late presses",
  "Tests cover short ledgers; clamping and expiry depend on order.",
  [JR, DB, RB], [("time-ordered ledger", JR)])

p("C14", "Every sampled hit is a possible hit",
  "For every sequence of random draws, including the extremes, each sampled hit equals the value the damage formula gives for its draws and so lies in the published range for its crit/direct-hit status; guaranteed crits and direct hits always happen and forbidden ones never. Samples have the requested shape, total damage is the sum of the hits and DPS is that total over the time from first to last hit.",
  ["inputs", "fault_sequences"], "all draws of the random generator (adversarial, extreme, stuck, ordinary) x all mixes of damage classes, jobs, effects and forced statuses",
  "Tests draw ordinary random numbers and compare means; extreme draws have probability ~2^-53.",
  [DT, DS, CD], [("sampling", DT)], ["DamageSimulator.get_damage_matrix/get_crit_status/get_dh_status/get_raw_damage/get_dps/get_damage_ranges"])

p("C15", "Analytic statistics agree with the samples",
  "Expected damage, variance, ranges and probabilities reported per hit and in total are those of the sampling procedure: probabilities lie between zero and one and sum to one, totals are sums over hits, and evenly spread draws reproduce the mean and the spread. The order, number and grouping of the hits do not matter.",
  ["inputs", "schedules"], "all hit lists (empty, single, many, any order and mix) x stratified draws",
  "Tests compare a few rotations with loose statistical tolerance.",
  [DS, DT], [("law of total variance over four outcomes", DS)], ["DamageSimulator.get_expected_damage/get_damage_variance/get_damage_ranges/get_crit_and_dh_rates"])

p("C16", "Kill times",
  "For one or more combined rotations, a sample's kill time is the time of the first hit, over all rotations merged in time order, at which the accumulated damage of that sample reaches the boss's HP, and a failure exactly if it never does; one entry per sample, failures last. A limit break contributes its stated exact damage, or its mean within 5%, whatever other conditions the hit carries.",
  ["inputs", "schedules", "fault_sequences"], "all combinations of rotations, HP (zero to unreachable), draws and limit breaks",
  "One test with a few rotations; merging order, ties and failures need search.",
  [KT], [("merge, cumulate, first crossing", KT)], ["KillTimeEstimator.estimate_kill_time"])

p("C17", "CSV import is faithful",
  "Importing a rotation from a file gives exactly the presses in the file, in any chunking of the reads; a read error is reported and leaves the rotation as it was, and a missing file adds nothing. A row naming an unknown skill is reported, never skipped silently.",
  ["fault_sequences", "crash_points", "inputs"], "all read schedules (short reads, errors at any read, missing, torn and empty files) x all rotations",
  "Tests read a healthy file (and the fixture is not in the repository).",
  [CSV], [("file is read completely before the rotation is touched", CSV)], ["CSVUtils.read_rotation_from_csv/populate_rotation_from_csv"])

p("C18", "Rotation analysis conserves damage",
  "Cumulative damage at a time is the sum of the expected damage snapshotted up to and including it, so it never decreases and ends, at the time of the last snapshot, at the total of all hits, whatever the interval. The expected maximum over k runs is the mean, over the trials, of the best of k runs picked at random, and so lies between the smallest and the largest of the runs.",
  ["inputs", "schedules"], "all histories of hits, intervals and draws",
  "No test covers it.",
  [RA, DS], [("prefix sums over snapshot times", RA)], ["RotationAnalysisUtils"])

p("C19", "Multi-target skills",
  "A skill used on several targets hits each of them once, in the listed order, each later target 0.135 s after the one before, with target-specific potency (dropoff), and with that target's own debuffs; a debuff is put on every listed target and on no other. Follow-ups marked primary-only (other than DoTs) touch only the first target.",
  ["schedules", "configurations", "fault_sequences"], "all target lists, overlaps between skills on overlapping target sets, targets in downtime",
  "Tests cover a few two- and three-target cases.",
  [DB, RB, SK], [("per-target fan-out", DB), ("aoe dropoff", SK)])

p("C20", "Death wipes the player's combat state and nothing else",
  "At the moment of death (also with weakness or brink of death) all buffs, combos and job resources of the player are gone for every later hit and press, and weakness or brink of death multiplies the main stat by 0.75 or 0.5 for the next 100 s. Hits already snapshotted, running DoTs, debuffs on targets and effects gained afterwards are unaffected.",
  ["crash_points", "fault_sequences"], "death at any moment of any rotation, repeatedly, with hits in flight",
  "Tests cover a few deaths at fixed times.",
  [GS, SE, CT, JR, DB], [("clear-all follow-ups", GS)])

p("C21", "Positionals and combos known from a log",
  "A press that carries the bonus percentage of a combat log gets the conditions under which the skill, in the state it is in at that press, has that bonus: if the percentage is that of a missed positional (or of a failed combo) the hit is the one with the missed positional (failed combo), and otherwise it is the full one; no bonus at all means a missed positional. Conditions a skill declares as irrelevant to the bonus stay on the hit and do not change what is concluded. A percentage on a skill without a positional, or one that fits nothing, changes nothing.",
  ["histories", "inputs", "fault_sequences"], "all fights, outcomes of each press (positional hit or missed, combo made or failed) and percentages the game then logs",
  "Tests check single skills in a few states; what a percentage means depends on the combo, the effects and the resources at the press.",
  [SIM + "utils.py", RB, SK], [("search over conditions", SIM + "utils.py"), ("conditions at a press", RB)])

p("N01", "Damage and stat formulas",
  "Base damage, crit, direct-hit, determination, tenacity and speed functions equal the published formulas for every stat value and level.",
  ["inputs"], "all stat values", "Tests sample a few stat lines.",
  [CD, SIM + "calcs/stat_fns.py"], [("closed formulas", CD)])
p("N02", "Patch and level data",
  "Every skill of every job at a supported patch and level has the data of that patch.",
  ["configurations"], "all patches, levels, jobs", "Tests check selected potencies.",
  [SIM + "game_data"], [("versioned tables", SIM + "game_data/specific_skills.py")])
p("N04", "Condition look-up",
  "A conditional specification resolves to the most specific entry all of whose conditions are met.",
  ["inputs"], "all condition sets", "Tests sample some sets.",
  [SK, SIM + "utils.py"], [("best key", SIM + "utils.py")])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80
            f.write(json.dumps(x) + "\n")
