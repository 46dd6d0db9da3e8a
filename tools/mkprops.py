#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

PARSER="beatmap/parser.go"
p("C01","Parsing any bytes ends in a beatmap or an error, never a panic or hang",
  "For every byte sequence (with slider length times repeat count kept to a modest total), parsing terminates and returns exactly one of a beatmap and an error: it never panics, never runs away in time or memory, and never returns both or neither. Malformed, truncated, non-numeric, NaN, infinite or out-of-range fields in any section are skipped or clamped, and every object of a returned beatmap has finite times, positions and tick times, with end not before start for sliders.",
  ["inputs"],"all byte sequences: arbitrary bytes, mutated real files, and grammar-generated files with hostile field values",
  "The tests parse three well-formed files; the guarantee is over every malformed one.",
  [PARSER,"beatmap/beatmap.go","beatmap/pause.go","beatmap/objects/util.go","beatmap/objects/slider.go","beatmap/objects/baseobject.go","math/curves/multicurve.go"],
  [("field-count and range validation","beatmap/objects/util.go"),("clamping of difficulty values",PARSER),("tick generation loop guard","beatmap/objects/slider.go")],
  ["beatmap.ParseFromByte","beatmap.ParseFromReader"])
p("C02","A failing reader is reported, never turned into a truncated beatmap",
  "If the reader given to the parser fails with an error other than end-of-file at any point, parsing returns an error and no beatmap. If the reader does not fail, how it splits the same bytes into reads (including short and empty reads, or data returned together with end-of-file) does not change the result. A file containing a line too long to be read (tens of megabytes) is likewise reported as an error rather than silently cut off there, while lines of up to a megabyte are read.",
  ["fault_sequences","inputs"],"every position at which a read can fail, every way of splitting the bytes into reads, over generated beatmaps",
  "The tests only read whole local files without faults.",
  [PARSER,"files/utf.go"],[("scanner error propagation",PARSER),("transform reader","files/utf.go")],
  ["beatmap.ParseFromReader"])
p("C03","Header fields are read back exactly as the file declares them",
  "For every beatmap file, the parsed general, metadata and difficulty fields (mode, stack leniency, audio, preview time; title, artist and their unicode forms, creator, difficulty name, source, tags, beatmap and set ids; format version; slider multiplier, tick rate, HP, CS, OD, AR) equal what the file declares, with surrounding blanks removed and everything after the first colon kept verbatim. HP, CS, OD and AR are clamped to 0..10, the slider multiplier to 0.4..3.6 and the tick rate to 0.5..8; AR defaults to OD when the file does not give it, wherever it appears; absent fields keep the documented defaults, and a later line for the same key replaces an earlier one (audio filename excepted).",
  ["inputs"],"all header contents: any unicode values, any key order, presence or absence of each key, numeric boundary values",
  "The tests compare four fields of one file.",
  [PARSER,"beatmap/beatmap.go"],[("parseGeneral / parseMetadata / parseDifficulty",PARSER),("defaults","beatmap/beatmap.go")],
  ["beatmap.BeatMap fields","BeatMap.Difficulty getters"])
p("C04","The result does not depend on how the same text is represented",
  "The same beatmap text yields an identical beatmap whatever its encoding (UTF-8, UTF-8 with BOM, UTF-16 LE or BE with BOM), its line endings (LF or CRLF), a missing final newline, blank and comment lines between entries, blanks around section headers, the order of its sections, sections split in several parts, or the entry point used (bytes or reader).",
  ["inputs","configurations"],"generated beatmaps times all combinations of encoding, line ending, section permutation, section splitting, comment and blank-line insertion",
  "Only one file exists in two encodings, and only four of its fields are compared.",
  [PARSER,"files/utf.go"],[("BOM override decoding","files/utf.go"),("section dispatch",PARSER)],
  ["beatmap.ParseFromByte","beatmap.ParseFromReader"])
p("C05","Every hit-object line becomes one faithful object, in time order",
  "Each well-formed circle, slider or spinner line produces exactly one object of that type with the declared position, start time (and end time for spinners), new-combo flag, combo-colour skip, hit sounds (one per edge for sliders, defaulting to the object's own sound, extra edge sounds ignored) and, for sliders, repeat count; other types produce none. Objects are ordered by start time, objects with the same time keep file order, and ids count from 0. The circle, slider and spinner counters (hold notes count as sliders) and the map length (largest whole-millisecond object time, spinner and hold ends included) agree with the lines.",
  ["inputs"],"all sequences of hit-object lines, in any order, with simultaneous and out-of-order objects and optional trailing fields",
  "The tests never look at individual objects.",
  [PARSER,"beatmap/objects/baseobject.go","beatmap/objects/util.go","beatmap/objects/circle.go","beatmap/objects/spinner.go","beatmap/objects/slider.go"],
  [("commonParse","beatmap/objects/baseobject.go"),("CreateObject","beatmap/objects/util.go"),("stable sort and counters",PARSER)],
  ["BeatMap.HitObjects","BeatMap.Circles/Sliders/Spinners/Length"])
p("C06","Combo numbering follows new-combo flags, spinners and colour skips",
  "Walking the objects in time order, combo numbers restart at 1 and the combo set advances by one exactly at objects that carry the new-combo flag or directly follow a spinner (such an object is then reported as starting a combo); the colour index additionally advances by the object's colour skip. Spinners themselves never start a combo, and every other object's number is its predecessor's plus one.",
  ["inputs","histories"],"all sequences of circles, sliders and spinners with any new-combo flags and colour skips",
  "No test looks at combos.",
  [PARSER,"beatmap/objects/hitobject.go"],[("combo pass in ParseFromReader",PARSER)],
  ["GetComboSet, GetComboSetHax, ComboNumber, IsNewCombo of each object"],
  [("forceNewCombo","pending new combo after a spinner",PARSER)])
p("C07","The timing in effect at any time is that of the last point before it",
  "At any time, the timing point in effect is the last one (in time order, file order among equals) whose time is not later, or the first one before all of them; an inherited point takes the beat length of the nearest preceding uninherited point scaled by its own slider-velocity factor (limited to 0.1x..10x) and carries its own sample, volume, kiai and bar-line settings. Times may be fractional and fields may be surrounded by blanks, missing trailing fields take their defaults, and the map's BPM range is the range of 60000/beat length over its uninherited points.",
  ["inputs"],"all lists of timing points (sorted or not, coinciding, fractional, NaN or negative beat lengths, truncated fields) and all query times",
  "No test queries timing; two files' points are exercised only through one star value.",
  ["beatmap/timing/timing.go","beatmap/beatmap.go"],[("FinalizePoints, GetPointAt, GetRatio, GetVelocity","beatmap/timing/timing.go"),("ParsePoint","beatmap/beatmap.go")],
  ["Timings.GetPointAt","Timings.GetOriginalPointAt","Timings.GetVelocity","Timings.GetTickDistance","Timings.GetSliderTimeP","BeatMap.MinBPM/MaxBPM"])
p("C08","A slider's path follows its control points and has its declared length",
  "A slider's path starts at the head, follows the declared curve (straight segments, three-point circular arc falling back to Bezier or straight lines where osu! does, piecewise Bezier split at doubled points, Catmull-Rom) to within a small flattening tolerance, and is cut short or straightly extended at its end so that its length is the declared pixel length. The position is proportional to distance: moving by a fraction of the path moves that fraction of the length along it, continuously; fractions outside 0..1 are clamped.",
  ["inputs"],"all curve types and control-point lists with editor-range coordinates (repeated points, nearly collinear and very short arcs included) and all positive lengths",
  "The tests reach curves only through aggregate star values of two maps.",
  ["math/curves/multicurve.go","math/curves/approximation.go","math/curves/bezierapproximator.go","math/curves/cirarc.go","math/curves/catmull.go","math/curves/linear.go","beatmap/objects/slider.go"],
  [("NewMultiCurveT truncation/extension","math/curves/multicurve.go"),("BezierApproximator","math/curves/bezierapproximator.go"),("ApproximateCircularArc","math/curves/approximation.go")],
  ["curves.NewMultiCurve","curves.NewMultiCurveT","MultiCurve.PointAt","MultiCurve.GetLength","MultiCurve.GetLines"])
p("C09","Slider duration and ball position follow velocity and repeats",
  "A slider lasts repeats x length / velocity, where velocity is 100 x slider multiplier px per beat at the timing point in effect at its start (slider-velocity factor applied). At any time the ball is on the path at the head when it starts, travels at constant speed, bounces at each repeat, and stays at its ends outside the slider's time; the end position is the tail for an odd and the head for an even number of passes, and a zero-duration slider stays at its head.",
  ["inputs"],"all sliders, timing points, slider multipliers and query times",
  "No test queries slider positions.",
  ["beatmap/objects/slider.go","beatmap/timing/timing.go","math/curves/multicurve.go"],
  [("SetTiming, PositionAt","beatmap/objects/slider.go"),("GetVelocity","beatmap/timing/timing.go")],
  ["GetEndTime, GetDuration, GetPositionAt, GetEndPosition of sliders"])
p("C10","Slider ticks, repeats and tail are exactly those osu! defines",
  "A slider's score points are: in each pass, ticks at every multiple of the tick distance (100 x slider multiplier x velocity factor / tick rate, at most the slider length) measured from the path start, leaving out those within 10 ms of travel of the path end; one repeat point at each reversal; and one tail point 36 ms before the end but not before the slider's midpoint. They are sorted by time, lie inside the slider, ticks in returning passes fall at the same path positions, only reversals are marked as such, and NaN beat lengths produce no ticks.",
  ["inputs"],"all sliders, repeat counts, tick rates, slider multipliers and timing points",
  "Only the total for two maps influences the tested values.",
  ["beatmap/objects/slider.go","beatmap/timing/timing.go"],[("SetTiming tick generation","beatmap/objects/slider.go"),("GetTickDistance","beatmap/timing/timing.go")],
  ["Slider.ScorePoints"])
p("C11","Stacking matches osu!'s stacking algorithm for every mod variant",
  "Objects starting within 3 px of each other (or of a slider's end) within the stacking time window - preempt time times stack leniency, computed separately for no-mod, Easy and HardRock - get the stack heights osu!'s beatmap processor gives them: the newer algorithm for format version 6 and up, the old one below, spinners never stacked (and never blocking in the newer algorithm). Each object's offset is minus its height times a tenth of that variant's circle radius on both axes.",
  ["inputs"],"all object sequences (interleaved stacks, stacks under slider ends, spinners in between), format versions, leniencies, AR and CS values",
  "Only one star value per map/mod depends on it, for two maps.",
  ["beatmap/stackleniency.go","beatmap/objects/hitobject.go"],[("applyNewStacking / applyOldStacking / processStacking","beatmap/stackleniency.go")],
  ["GetStackIndex(mod)","GetStackedStartPositionMod(mod)"],
  [("StackIndex, StackIndexEZ, StackIndexHR","stack height per mod variant","beatmap/objects/hitobject.go")])
p("C12","Mod-adjusted positions mirror for HardRock and use that mod's stacking",
  "For any object, time and mod combination, the mod-adjusted start, end and at-time positions equal the raw position, mirrored vertically (y to 384 - y) under HardRock, plus the stack offset of the variant in force (HardRock over Easy over no-mod); other mods change nothing, and the plain stacked positions are the no-mod ones. Querying never changes later answers.",
  ["inputs","configurations"],"all objects, all mod bitmasks, all times, any order of queries",
  "HardRock is reached by one aggregate value; Easy by none.",
  ["beatmap/objects/hitobject.go","beatmap/objects/slider.go"],[("modifyPosition, SetStackOffset, GetStackIndex","beatmap/objects/hitobject.go")],
  ["GetStackedStartPositionMod, GetStackedEndPositionMod, GetStackedPositionAtMod and the unmodded getters"])
p("C13","Difficulty values depend only on current settings and follow osu! formulas",
  "After any sequence of setting HP, CS, OD, AR, mods and custom speed, circle radius, preempt time, hit windows, spinner ratio, HP, speed and the speed-adjusted AR and OD are exactly those of a fresh difficulty with the final settings, as given by osu!'s piecewise-linear formulas with HardRock (x1.4, CS x1.3, capped at 10), Easy (halved) and DoubleTime/HalfTime (x1.5 / x0.75 speed) applied. The base values read back unchanged, times scale by the speed, and without mods the real AR and OD equal the set ones.",
  ["histories","inputs","configurations"],"all operation sequences on a difficulty with values in 0..10, any mod mask and positive custom speed",
  "The tests use at most one SetMods call with three mods.",
  ["beatmap/difficulty/difficulty.go"],[("calculate","beatmap/difficulty/difficulty.go"),("DifficultyRate, DiffFromRate","beatmap/difficulty/difficulty.go")],
  ["difficulty.Difficulty fields and getters"])
p("C14","Mod strings and bitmasks convert consistently",
  "Formatting a mod combination lists the two-letter acronym of each active mod exactly once in bit order, except that NC, DC and PF hide the DT, HT and SD they imply (the long-name list likewise), and parsing recognises exactly those acronyms, in any order and with repetition, adding DT, HT and SD for NC, DC and PF and ignoring everything else. Parsing the formatted string of a combination closed under those implications returns the combination, and parsing never fails, whatever the string.",
  ["inputs"],"all mod bitmasks and all strings (odd lengths, unknown acronyms, non-ASCII text included)",
  "No test formats or parses mods.",
  ["beatmap/difficulty/mods.go"],[("ParseMods, String, StringFull","beatmap/difficulty/mods.go")],
  ["difficulty.ParseMods","Modifier.String","Modifier.StringFull"])
p("C15","Mod score multipliers and compatibility follow the mod rules",
  "The score multiplier is the product of the active mods' factors - NF 0.5 (1 under ScoreV2), EZ 0.5, HT 0.3, HD 1.06, HR 1.06 (1.10 under ScoreV2), DT 1.12 (1.20), FL 1.12, SO 0.9 - and zero with Relax or Autopilot; every other mod leaves it unchanged. A combination is compatible exactly when it contains no forbidden pair (HR/EZ; DT or NC with HT or DC; SD or PF with NF; RX with AP; RX or AP with SD, PF, Autoplay or NF; AP with SO) and not Target, so removing mods never makes a compatible set incompatible, and a mod is active exactly when its bit is set.",
  ["configurations"],"all mod bitmasks",
  "No test covers multipliers or compatibility.",
  ["beatmap/difficulty/mods.go"],[("GetScoreMultiplier, Compatible, Active","beatmap/difficulty/mods.go")],
  ["Modifier.GetScoreMultiplier","Modifier.Compatible","Modifier.Active"])
p("C16","Star ratings equal osu!'s difficulty algorithm (late-2021 rework)",
  "For every list of hit objects and every difficulty and mod combination, aim, speed, flashlight and total stars and the slider factor equal those of osu!'s late-2021 difficulty algorithm (lazy slider movement, per-object distances, angles and strain times, aim/speed/rhythm/flashlight strains with exponential decay, 400 ms section peaks, reduced top sections, weighted sum) up to rounding. Relax zeroes speed, flashlight counts only with the flashlight mod, and spinners contribute no strain.",
  ["inputs","configurations"],"all parsed beatmaps (circles, sliders, spinners; streams, jumps, stacks, gaps, rhythm changes) and mod combinations",
  "Two maps with three mod sets are compared to stored numbers; most branches (flashlight, relax, spinners, small circles, rhythm islands) are reached by no assertion.",
  ["performance/osu/difficulty.go","performance/osu/skills/skill.go","performance/osu/skills/aim.go","performance/osu/skills/speed.go","performance/osu/skills/flashlight.go","performance/osu/preprocessing/object.go","performance/osu/preprocessing/lazyslider.go","performance/osu/preprocessing/objects.go"],
  [("strain accumulation and peaks","performance/osu/skills/skill.go"),("object preprocessing","performance/osu/preprocessing/object.go"),("star formula","performance/osu/difficulty.go")],
  ["osu.CalculateSingle","osu.Attributes"])
p("C17","Stepwise, single and peak calculations agree with each other",
  "Stepwise calculation returns one entry per object, and each entry equals the single calculation of the objects up to and including that one; the last entry is the rating of the whole map. The variants that also return strain peaks return the same attributes as those that do not, and the same peaks as the peaks-only calculation.",
  ["inputs","histories"],"all beatmaps, all prefixes, all mod combinations",
  "No test calls the stepwise or peak functions.",
  ["performance/osu/difficulty.go"],[("calculateSingle, calculateStep, getPeaks","performance/osu/difficulty.go")],
  ["osu.CalculateSingle","osu.CalculateStep","osu.CalculateSingleWithPeaks","osu.CalculateStepWithPeaks","osu.CalculateStrainPeaks"])
p("C18","Every beatmap the parser accepts can be rated, with finite results",
  "For every beatmap the parser returns - including one with no hit objects, a single object, simultaneous objects, degenerate sliders or only spinners - and every mod combination and sane custom speed, all rating functions return without panicking, all star, factor, peak and pp values are finite and non-negative, and a map without objects rates as zero.",
  ["inputs","configurations"],"all parseable inputs (hostile ones included) times mod combinations",
  "The tests rate two ordinary maps.",
  ["performance/osu/difficulty.go","performance/osu/preprocessing/lazyslider.go","performance/osu/preprocessing/object.go","performance/osu/skills/aim.go","performance/osu/skills/speed.go","performance/osu/skills/flashlight.go","performance/osu/pp.go"],
  [("calculateSingle/calculateStep","performance/osu/difficulty.go"),("minimum delta time","performance/osu/preprocessing/object.go")],
  ["osu.Calculate*","osu.PPv2.PPv2x"])
p("C19","Object counts and maximum combo are exact",
  "The attributes' object, circle, slider and spinner counts are the numbers of such objects rated, and the maximum combo is one per circle and spinner plus, for each slider, one for its head and one per score point (ticks, repeats, tail). Mods and difficulty settings never change them, and in stepwise calculation they are those of the prefix and never decrease.",
  ["inputs","configurations"],"all beatmaps, prefixes and mod combinations",
  "The tests use the counts only indirectly, in the pp of one map.",
  ["performance/osu/difficulty.go"],[("addObjectToAttribs","performance/osu/difficulty.go")],
  ["osu.Attributes counts"])
p("C20","Star ratings have the symmetries of the game",
  "Star ratings do not change when the whole map is shifted in time by whole strain sections, or (with stacking disabled) translated, mirrored or rotated by right angles; nor with mods that do not affect difficulty (NF, SD, PF, HD, SO, TD, AP, ScoreV2, key mods). DoubleTime, Nightcore and a custom speed of 1.5 rate identically, likewise HalfTime, Daycore and 0.75; HardRock rates as the vertically mirrored map with its raised settings, Easy as the halved settings; playing a circle-only map stretched in time at correspondingly higher speed, with hit windows scaled alike, rates the same.",
  ["inputs","configurations"],"all beatmaps and all such transformations and mod substitutions",
  "Relations between two runs are never tested.",
  ["performance/osu/difficulty.go","performance/osu/preprocessing/object.go","performance/osu/skills/skill.go","beatmap/difficulty/difficulty.go","beatmap/objects/hitobject.go"],
  [("difference-based preprocessing","performance/osu/preprocessing/object.go"),("modifyPosition","beatmap/objects/hitobject.go")],
  ["osu.CalculateSingle under transformed inputs"])
p("C21","Performance points equal osu!'s late-2021 pp formula",
  "For any attributes, hit counts, combo, mods and difficulty, the aim, speed, accuracy, flashlight and total pp equal osu!'s late-2021 formula: length, miss (combo-estimated with sliders), combo, AR, HD, slider-nerf, accuracy, OD and 50s factors, touch-device reduction, hit-circle-only accuracy (all objects under ScoreV2), FL scaling, and the NF, SO and RX multipliers, combined with the 1.1 power norm.",
  ["inputs","configurations"],"all attribute values, hit-count partitions (including more than 2000 hits), combos, mod masks, difficulty settings",
  "Three stored pp values for full-combo SS plays on one map.",
  ["performance/osu/pp.go"],[("PPv2x, compute*Value, calculateEffectiveMissCount","performance/osu/pp.go")],
  ["PPv2.PPv2x","PPv2Results"])
p("C22","Playing worse never gives more pp, and pp is always a sane number",
  "For any map attributes with slider factor in 0..1 and any valid play, every pp component is finite and at least zero, and none increases when a great becomes an ok or an ok a meh, or the maximum combo is lowered with everything else fixed; without Relax, aim, accuracy and flashlight pp do not increase when a meh becomes a miss; harder attributes (higher aim, speed or flashlight stars) never lower pp, adding NoFail never raises it, and no valid play is worth more than a full-combo SS.",
  ["inputs","configurations"],"all attributes, valid hit partitions, combos, mod masks and single-step degradations",
  "The tests only compute perfect plays.",
  ["performance/osu/pp.go"],[("penalty and scaling factors","performance/osu/pp.go")],
  ["PPv2.PPv2x results of paired plays"])
p("C23","pp defaults and calculator reuse are history-free",
  "A negative combo means the map's maximum combo and a negative great count means all remaining objects, giving exactly the result of passing those numbers explicitly. A pp calculator can be reused for any sequence of plays: each call returns what a fresh calculator would, the returned value and the stored results agree, and neither the attributes passed in nor the difficulty are changed.",
  ["histories","inputs"],"all sequences of plays on one calculator with explicit and default arguments",
  "Each test makes a single call on a fresh calculator.",
  ["performance/osu/pp.go"],[("argument defaulting and state reset in PPv2x","performance/osu/pp.go")],
  ["PPv2.PPv2x return value and Results field"],
  [("PPv2 fields","play being evaluated, overwritten by each call","performance/osu/pp.go")])
p("C24","Rating is repeatable, read-only and safe to run concurrently",
  "Rating a beatmap any number of times, interleaved with rating other beatmaps or the same one with other mods, always gives bit-identical results, and leaves beatmap, objects and difficulty unchanged. Ratings, parses and pp calculations running concurrently - also on one shared beatmap, with shared or separate difficulties - do not race and give the sequential results.",
  ["schedules","histories","inputs"],"all interleavings of rating calls with different mods over generated beatmaps; concurrent executions under the race detector",
  "The tests run each calculation once, sequentially.",
  ["performance/osu/difficulty.go","performance/osu/preprocessing/objects.go","performance/osu/preprocessing/lazyslider.go","performance/osu/skills/skill.go","math/curves/multicurve.go","beatmap/objects/slider.go"],
  [("per-call skills and decorated sliders","performance/osu/preprocessing/objects.go")],
  ["results of repeated and concurrent calls; deep snapshot of inputs"])
p("C25","Curve primitives agree with their mathematical definitions",
  "For all control points and parameters, the line, Bezier (any number of points), Catmull-Rom and three-point circular-arc primitives return the mathematically defined point, pass through the points they must (ends; Catmull's inner points; all three arc points), report a length equal to the curve's arc length within their sampling accuracy, and binomial coefficients are exact (n up to 60). Flattening a Bezier keeps both end points and stays within a quarter of a pixel of the curve.",
  ["inputs"],"all control points in a generous coordinate range and all parameters in 0..1",
  "No test calls the curve primitives.",
  ["math/curves/bezier.go","math/curves/bezierapproximator.go","math/curves/catmull.go","math/curves/cirarc.go","math/curves/linear.go"],
  [("bernstein, BinomialCoefficient","math/curves/bezier.go"),("findPoint","math/curves/catmull.go"),("NewCirArc","math/curves/cirarc.go")],
  ["PointAt, GetLength, GetStartAngle, GetEndAngle of each curve; BezierApproximator.CreateBezier"])
p("C26","Strain peaks cover the timeline and reproduce the star rating",
  "The aim, speed and flashlight peak lists have exactly one entry per 400 ms section (in sped-up time) from the section of the second object to that of the last, so they all have the same length; peaks of a prefix agree with the peaks of the whole map except for its last, unfinished section. The skill ratings in the attributes are the weighted sums of the sorted peaks, and the total peaks are each section's peaks put through the star formula.",
  ["inputs"],"all beatmaps (gaps, section-boundary objects, prefixes) and mod combinations",
  "No test looks at strain peaks.",
  ["performance/osu/skills/skill.go","performance/osu/difficulty.go"],[("processInternal, GetCurrentStrainPeaks, DifficultyValue","performance/osu/skills/skill.go"),("getPeaks","performance/osu/difficulty.go")],
  ["osu.CalculateStrainPeaks","osu.CalculateSingleWithPeaks"],
  [("currentSectionEnd, strainPeaks","section bookkeeping of a skill","performance/osu/skills/skill.go")])
p("C27","Unknown or broken lines never affect the rest of the file",
  "Inserting lines the parser has no use for - unknown sections with any content, unknown keys, storyboard and video events, key lines without a value separator, comment lines, hit-object, timing or event lines whose required fields are missing, not numbers or out of range, hit objects of no known type - leaves the parsed beatmap identical to the one without them.",
  ["inputs"],"generated beatmaps times inserted junk lines at every section position",
  "The tests never compare a file with a perturbed copy.",
  [PARSER,"beatmap/objects/util.go"],[("tokenize, section and key dispatch",PARSER),("object validation","beatmap/objects/util.go")],
  ["beatmap.ParseFromByte"])
p("C28","Vector and scalar helpers obey their algebra",
  "Vector addition, subtraction, scaling, products, distances, lengths, angles, rotation, interpolation, normalisation and straightness tests, and the scalar clamp, min, max, lerp and float helpers, return the mathematically defined result for all finite inputs (up to float32 rounding) and never modify their operands; clamping always lands in the interval and is idempotent, rotation preserves length, interpolation hits both ends.",
  ["inputs"],"all finite vectors and scalars in a generous range, boundary values included",
  "No test calls them directly.",
  ["math/vector/vector2f.go","math/mutils/utils.go","math/math32/math.go"],[("Vector2f methods","math/vector/vector2f.go"),("Clamp/Lerp","math/mutils/utils.go")],
  ["vector.Vector2f methods","mutils and math32 functions"])
p("C29","Events: background and break periods are read as declared",
  "The background file name is that of the last background event with quotes removed, and the break list contains, in file order, exactly the declared breaks (numeric or named form) with their start and end times and length end minus start; all other events leave both untouched.",
  ["inputs"],"all event sections mixing backgrounds, breaks, videos and storyboard commands",
  "No test looks at events.",
  [PARSER,"beatmap/pause.go"],[("parseEvents",PARSER),("NewPause","beatmap/pause.go")],
  ["BeatMap.Bg","BeatMap.Pauses"])
p("C30","Composite slider curves: pieces, length, positions and directions agree",
  "For every curve type and control-point list, uncut or with a declared length, a composite curve consists of consecutive pieces from the first control point (to the last one when uncut), its length is the sum of theirs, and any query along it answers from the piece at that distance: the position at a fraction is the point that far along the pieces (clamped outside 0..1), start and end angles are those of the first, last or queried piece. Declaring a length keeps the beginning of the natural curve unchanged and cuts or straightly extends only its last remaining piece; asking changes nothing.",
  ["inputs"],"all curve types, 2..20 control points with doubled ones, declared lengths from 0 to several times the natural one, all fractions",
  "No test builds a curve on its own.",
  ["math/curves/multicurve.go"],[("NewMultiCurveT","math/curves/multicurve.go"),("getLineAt","math/curves/multicurve.go")],
  ["curves.NewMultiCurve","curves.NewMultiCurveT","MultiCurve methods"])
p("C31","Star ratings never fall as a map goes on",
  "In stepwise calculation of any map under any mods and speed, the aim, speed, flashlight and total rating of a prefix never exceed those of a longer prefix: adding objects at the end can only add or raise strain peaks, however easy they are or long the pause before them.",
  ["inputs","histories"],"all maps, mods and speeds",
  "The tests rate whole maps only.",
  ["performance/osu/difficulty.go","performance/osu/skills/skill.go"],[("CalculateStep","performance/osu/difficulty.go"),("DifficultyValue","performance/osu/skills/skill.go")],
  ["osu.CalculateStep"])
p("C32","Data without bearing on difficulty never changes a rating",
  "Star ratings, strain peaks and object counts do not depend on new-combo flags, colour skips, hit sounds, edge sounds or sample data of objects; on sample, volume, meter or effect settings of timing points; on metadata, audio, preview time, mode, background, breaks or storyboard; on timing lines that merely restate the beat length and velocity in effect; or on the HP and AR of the difficulty rated with. OD changes the speed and total rating only.",
  ["inputs"],"all maps, mods and speeds, all such changes",
  "The tests never compare two versions of a map.",
  [PARSER,"performance/osu/difficulty.go","beatmap/timing/timing.go"],[("ParseFromReader",PARSER),("CalculateSingle","performance/osu/difficulty.go")],
  ["beatmap.ParseFromByte","osu.CalculateSingleWithPeaks"])
p("C33","From a beatmap file to performance points the whole chain gives what osu! gives",
  "For any beatmap text, mods, custom speed and play on all or the beginning of the map: parsing it, rating it and computing pp gives the star ratings, object counts, highest combo and pp (aim, speed, accuracy, flashlight, total) which osu!'s definitions give when they are applied to the numbers written in the file - paths, tick times, stacking, position mods, strain and pp composed - up to the accuracy to which curves are flattened.",
  ["inputs","histories"],"all maps, mods, speeds, prefixes and plays, except where rounding or flattening decides a comparison",
  "The tests rate a few fixed maps; each stage may be right on its own while the stages disagree about what they pass on.",
  [PARSER,"performance/osu/difficulty.go","performance/osu/pp.go","beatmap/stackleniency.go","beatmap/objects/slider.go"],[("ParseFromReader",PARSER),("CalculateSingle","performance/osu/difficulty.go"),("PPv2x","performance/osu/pp.go")],
  ["beatmap.ParseFromByte","osu.CalculateSingle","osu.CalculateStep","osu.PPv2.PPv2x"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
