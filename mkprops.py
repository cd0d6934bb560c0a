import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=w) for n,w in state]
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
p("C01","Input files are read exactly: every event, nothing else, or a numbered error",
"Reading a reference or hypothesis file yields exactly the events written on its lines, in order, with every field as written, whatever the spacing, comment lines, blank lines, carriage returns or missing final newline. A line that is not one complete event makes the read fail, and the error names that line's number. Events from an earlier read never leak into a later one.",
["inputs"],"every short file over an alphabet of digits, letters, separators, comment marks and line ends, and longer files built from well-formed and damaged lines",
"The tests read two fixed streams; acceptance and rejection are statements about every byte sequence.",
["reader/PlainTextMapEventReader.h","reader/PlainTextReader.h","core/Event.h","core/ScoredEvent.h","core/ShapedEvent.h","core/BoundingBox.h","core/DocumentBoundingBox.h"],
[("line reader","reader/PlainTextMapEventReader.h: Read"),("field extraction","operator>> of the event and location types")])
p("C02","Bounding box geometry is the true geometry of the rectangles",
"For any two boxes the reported area, intersection area and union area equal the number of unit cells in the rectangle, in both rectangles, and in either rectangle. Intersection and union are symmetric, and the intersection never exceeds either area. Boxes in different documents never intersect, and boxes of the same document behave exactly as plain boxes.",
["inputs"],"all boxes whose coordinates and areas are representable in the coordinate type, signed or unsigned",
"The unit tests try a handful of overlapping rectangles; touching edges, containment, emptiness and negative coordinates interact.",
["core/BoundingBox.h","core/DocumentBoundingBox.h","core/ShapedEvent.h"],
[("box intersection","core/BoundingBox.h: IntersectionArea, UnionArea, Area"),("per-document boxes","core/DocumentBoundingBox.h")])
p("C03","Comparison operators of events and boxes are one consistent total order",
"For boxes, document boxes, events and scored events exactly one of less, equal and greater holds between any two values, the six operators agree with one another, and the order is transitive. Two values are equal exactly when all their fields are. Scored events are ordered by their score first.",
["inputs"],"all pairs and triples of values with bounded strings and any coordinates and any scores that are numbers",
"Tests compare a few hand-picked pairs with some of the operators; the order is used by sorting and by sets, which need the laws for all triples.",
["core/BoundingBox.h","core/DocumentBoundingBox.h","core/Event.h","core/ScoredEvent.h","core/ShapedEvent.h"],
[("lexicographic comparison","Compare and operator< <= > >= == != of each value type")])
p("C04","Overlap scorers hit exactly at their threshold",
"A hypothesis is a hit for a reference exactly when both are for the same query, the hypothesis has a non-empty box, and the shared area divided by the hypothesis area (or by the area of the union, for the union criterion) reaches the threshold. A hit has no error and a miss counts one full false positive and one full false negative.",
["inputs"],"all pairs of boxes with areas below 2^24, same or different query and document, and a range of thresholds",
"Tests check a few ratios; the exact-threshold, empty-box and just-below cases need every pair.",
["scorer/IntersectionOverHypothesisAreaScorer.h","scorer/IntersectionOverUnionAreaScorer.h"],
[("threshold test","operator() of the two scorers")])
p("C05","Soft and exact-identity scorers report the right fractional errors",
"The soft scorer reports as false positive the share of the hypothesis area that lies outside the reference and as false negative the share of the reference area that is not covered, both between zero and one, and full errors for different queries. The exact-identity scorer reports no error exactly when location and query are both equal. Every reported error counts exactly one hypothesis and one reference.",
["inputs"],"all pairs of boxes with areas below 2^24 and arbitrary queries and locations",
"Tests compute a few ratios by hand.",
["scorer/SoftBoundingBoxScorer.h","scorer/TrivialScorer.h","core/MatchError.h","core/MatchErrorCounts.h"],
[("soft error","scorer/SoftBoundingBoxScorer.h: operator()"),("exact match","scorer/TrivialScorer.h: operator()"),("error counts","core/MatchError.h, core/MatchErrorCounts.h")])
p("C06","Overlap lookup returns exactly the overlapping references, best first",
"After any sequence of insertions, removals and clears, looking up a hypothesis returns each stored reference of the same query and document that shares area with it exactly once, and no other, ordered by decreasing shared area with ties broken by decreasing event order. The reported size is the number of distinct stored references.",
["inputs","histories"],"every short history of insert, remove, clear and lookup with arbitrary boxes, queries and documents, plus larger sets",
"Tests insert one fixed set and look up a few events; duplicates, removals, ties and sets beyond one sort partition are not reached.",
["core/DocumentBoundingBoxEventSet.h","core/EventSet.h"],
[("index by query and document","core/DocumentBoundingBoxEventSet.h: Insert, Remove, Clear, FindOverlapping")],
[("documents_by_query_","the stored references"),("size_","number of stored references")])
p("C07","Matching accounts for every reference and never double counts",
"Every distinct reference appears in exactly one match or false negative, and every hypothesis in at most one match or false positive. The hypotheses that appear in none are exactly those whose only acceptable references were already taken, and they are kept aside as repeated matches. Reusing a matcher for a second evaluation gives the same result as a fresh one.",
["inputs","histories"],"all small sets of references and hypotheses with every possible overlap and error pattern, duplicates included, and two consecutive evaluations",
"The tests run five fixed scenarios; conservation must hold for every overlap pattern.",
["matcher/SimpleMatcher.h","core/Match.h"],
[("greedy matching","matcher/SimpleMatcher.h: Match, GetRepeatedMatches")],
[("refs_set_","references of the current evaluation"),("repeated_matches_","hits on taken references")])
p("C08","Hypotheses are matched greedily in order to their best free reference",
"Hypotheses are taken in the given order, and each is matched to the first reference in decreasing order of shared area that it is an acceptable hit for and that is still free. A hypothesis that is an acceptable hit for no reference becomes a false positive, and references left free become false negatives after all the hypotheses. Each reported match carries the error the scorer gave to that pair.",
["inputs"],"all small reference and hypothesis lists with arbitrary boxes, order, overlap and error patterns",
"The tests contain no competition between hypotheses for several references.",
["matcher/SimpleMatcher.h","core/DocumentBoundingBoxEventSet.h"],
[("greedy choice","matcher/SimpleMatcher.h: Match")])
p("C09","Matches with equal score become one curve point holding their totals",
"Consecutive matches whose hypotheses have the same score are merged into one point whose hypothesis, reference, false positive and false negative counts are the sums of theirs, and matches with different scores are never merged. False negatives form points of their own, after or between the scored ones. Totals are conserved.",
["inputs"],"all short sequences of matches with arbitrary scores and arbitrary errors",
"The test collapses one fixed sequence.",
["core/Assessment.h","core/MatchErrorCounts.h"],
[("collapse","core/Assessment.h: CollapseMatches")])
p("C10","Precision and recall are the defined ratios at every point",
"At each point precision is one minus the accumulated false positives over the accumulated hypotheses (one if there are none yet), and recall is the accumulated references minus the accumulated false negatives over the total of references (one if there are none). With interpolation each precision is the largest at this or any later point, and recall is unchanged. There is one point per match, or per distinct score when collapsing.",
["inputs"],"all short sequences of errors with symbolic counts and fractional errors, over exact real arithmetic",
"The test checks fixed vectors to a tolerance.",
["core/Assessment.h"],
[("curve","core/Assessment.h: ComputePrecisionAndRecall, NumTotalReferences, GetMatchErrors")])
p("C11","Average precision is the area under the recall-precision curve",
"Average precision equals the sum over points of the recall gain times the precision at the point, or the mean of the two neighbouring precisions under trapezoidal integration. It is never negative nor above one for valid inputs, and both ways of computing it agree when every hypothesis hit carries as much recall as precision credit. Without any reference it is zero.",
["inputs"],"all short precision, recall and error sequences over exact real arithmetic",
"The test checks fixed vectors to a tolerance.",
["core/Assessment.h"],
[("average precision","core/Assessment.h: ComputeAP, ComputeGlobalAP")])
p("C12","NDCG is the discounted gain of the ranking over the ideal gain",
"NDCG equals the sum over ranked hypotheses of two to the power of their precision credit minus one, discounted by the logarithm of their rank, divided by the same sum for a ranking with every reference hit first. All hypotheses merged in one point share that point's average credit and take consecutive ranks, and false negatives take no rank. Without references it is zero.",
["inputs"],"all short sequences of error counts, with the transcendental functions uninterpreted but equal on equal arguments",
"The test checks fixed vectors to a tolerance.",
["core/Assessment.h"],
[("NDCG","core/Assessment.h: ComputeNDCG, ComputeGlobalNDCG")])
p("C13","Global measures pool all matches and mean measures average over groups",
"Matches are partitioned by query, or by the group their query belongs to, keeping their order within each part, and every match is in exactly one part. A mean measure is the arithmetic mean over the parts of the measure of each part, and a global measure is that of all matches pooled, re-ordered by score when asked. With no parts a mean measure is zero.",
["inputs","configurations"],"all short match lists over a few queries and all assignments of queries to groups, for both measures and every combination of options",
"There is no test of grouping or of the mean measures at all.",
["core/Assessment.h","core/Statistic.h"],
[("grouping","core/Assessment.h: GroupMatchesByQueryGroup"),("means and pools","core/Assessment.h: ComputeMeanAP, ComputeGlobalAP, ComputeMeanNDCG, ComputeGlobalNDCG"),("statistic objects","core/Statistic.h")])
p("C14","Query set and query group files restrict and group exactly as written",
"With a query set, exactly the events whose query is listed are evaluated. With query groups, exactly the events whose query is listed in some group are evaluated, the mean measures average over groups that have matches, and the query set is ignored. A file that cannot be read, or a group line without members, ends the run with an error before any result is printed.",
["inputs","configurations"],"all small reference and hypothesis files combined with all small query set and group files",
"No test runs the tool.",
["tools/GenericKwsEvalTool.h"],
[("filtering","tools/GenericKwsEvalTool.h: filter_events, Main")])
p("C15","Name-to-number mapping is consistent, injective and dense",
"Equal names always get equal numbers, different names always get different ones, and the numbers are handed out from zero in order of first appearance. When the number type is exhausted a new name is refused with an error while known names keep working, never a reused or wrapped number. Copies of a mapper share one table, and destroying or assigning mappers neither frees the table twice nor leaks it.",
["inputs","histories"],"all short histories of lookups of arbitrary short names through a mapper and its copies, up to the exhaustion of the number type",
"Tests map a few fixed names.",
["mapper/StringToIntMapper.h","mapper/StringEventToIntMapper.h","mapper/ScoredEventMapper.h"],
[("mapping","mapper/StringToIntMapper.h: operator()"),("event mapping","mapper/StringEventToIntMapper.h, mapper/ScoredEventMapper.h")],
[("impl_","table from names to numbers"),("own_","whether the mapper frees the table")])
p("C16","Bootstrap samples redraw from the original with the original sizes",
"A resample of a match list has as many matches as the original, all of them taken from it with replacement by the drawn positions. A resample by query has as many queries as the original, each a redrawn query with as many matches as that query has, all taken from it. The original is left untouched, earlier contents of the result are discarded, and equal seeds give equal samples.",
["inputs","histories"],"all short originals and every outcome of every random draw",
"There is no test of bootstrapping, and a test could only try some seeds.",
["core/Bootstrapping.h"],
[("samplers","core/Bootstrapping.h: MatchesSampler, MatchesByQuerySampler")])
p("C17","Bootstrap confidence bounds are the right quantiles of the resamples",
"The reported value is the measure on the original data. The lower and upper bounds are the value minus the upper and lower quantile, at half the given level from each end, of the differences between the resampled measures and the value, for every level from zero to one and every number of repetitions, none included. The measure is evaluated once per repetition on that repetition's own sample.",
["inputs","configurations"],"all measure values for a bounded number of repetitions and all levels",
"There is no test of bootstrapping.",
["core/Bootstrapping.h"],
[("percentile bounds","core/Bootstrapping.h: ComputePercentileBootstrapCI")])
p("C18","The command line is accepted or rejected exactly as documented",
"Options may come before the arguments, in any order, as a double dash name followed by its value, and set exactly their variable; a boolean option may omit its value. Unknown options, values that are not entirely of the option's type, missing mandatory arguments and extra arguments are each rejected with an error, and a lone double dash ends the options. Options that are not given keep their defaults, and the help text lists everything registered.",
["inputs","configurations"],"all short argument vectors made of arbitrary short strings and of registered names with arbitrary values",
"Tests parse a handful of vectors; rejection is a statement about all others.",
["cmd/Parser.h","cmd/Option.h","cmd/Argument.h"],
[("argument loop","cmd/Parser.h: Parse"),("value parsing","cmd/Option.h, cmd/Argument.h: Parse")])
p("C19","Sampling a curve reads the right segment at every requested point",
"Each sampled value is the curve's value at the first point not left of the requested position, or the linear interpolation between that point and the one before, and zero beyond the end of the curve. The sampling positions are evenly spaced and cover zero to one inclusive. The mean curve is the average over groups of the curves sampled at the same positions.",
["inputs"],"all short curves with symbolic coordinates, repeated ones included, and all numbers of sampling positions up to a bound",
"There is no test of sampling.",
["core/Assessment.h","tools/GenericKwsEvalTool.h"],
[("sampling","core/Assessment.h: SampleCurveAtGivenPoints, GetEvenlyDistributedPoints01Interval"),("curves","tools/GenericKwsEvalTool.h: WriteGlobalRPCurve, WriteMeanRPCurve")])
p("C20","The printed measures are those of the definition and ignore input order",
"For any pair of reference and hypothesis files the four printed measures are the ones obtained by the definitions of matching, curve, average precision and discounted gain. With the default descending sort, and equal scores collapsed, they do not depend on the order of the lines in either file. Separate runs on the same input print the same.",
["inputs"],"all small reference and hypothesis files with symbolic boxes, scores and queries, in every line order",
"No test runs the tool; the examples give one value each.",
["tools/GenericKwsEvalTool.h","tools/Icdar17KwsEval.cc","tools/SimpleKwsEval.cc"],
[("evaluation pipeline","tools/GenericKwsEvalTool.h: Main")])
p("C21","Match records behave as values",
"A copied or assigned match is equal to its source and independent of it, self-assignment changes nothing, and no memory is leaked or freed twice however matches are copied, assigned and destroyed. Matches are equal exactly when both sides and the error are equal. False positives hold only a hypothesis, false negatives only a reference, and each counts what it stands for.",
["inputs","histories"],"all short histories of construction, copy, assignment and destruction over all kinds of matches with arbitrary fields",
"No test exercises copying, assignment or comparison of matches.",
["core/Match.h","core/MatchError.h","core/MatchErrorCounts.h"],
[("ownership","core/Match.h: constructors, operator=, destructor, operator==")],
[("ref_, hyp_","owned events of the match")])
p("C22","Sorting orders hypotheses by score and keeps every one of them",
"Descending order puts higher scores first and ascending order lower scores first, the unsorted choice keeps the file's order, and an unknown criterion warns and keeps the file's order. Sorting matches by score puts all scored matches before the false negatives. No event is lost, duplicated or changed by sorting.",
["inputs","configurations"],"all short lists of scored events and matches, ties and negative scores included, under each sorting choice",
"No test sorts matches or runs the tool with a sorting choice.",
["core/Assessment.h","core/ScoredEvent.h","tools/GenericKwsEvalTool.h"],
[("match order","core/Assessment.h: SortMatchesDecreasingScore"),("hypothesis order","tools/GenericKwsEvalTool.h: Main")])
p("C23","Writing an event and reading it back gives the same event",
"Boxes, document boxes, events and scored events written as text and read back are equal to the original, when names hold no blanks and scores need no more than six significant digits. Fields are written in a fixed order with one space between them. A match is written with its hypothesis, its reference and its errors, leaving out the side it does not have.",
["inputs"],"all values with names of bounded length and any coordinates",
"Tests round-trip one value per type; the text of matches is not tested.",
["core/BoundingBox.h","core/DocumentBoundingBox.h","core/Event.h","core/ScoredEvent.h","core/ShapedEvent.h","core/Match.h"],
[("text form","operator<< and operator>> of the value types"),("matches","core/Match.h, core/MatchError.h: operator<<")])
p("C24","Failures are reported by the exit status and never produce results",
"When the command line is wrong, or an input file is missing, malformed or fails while being read, or an output file or the standard output cannot be written, the run ends with a non-zero status and an error message, and no measures are printed for unusable input. In every other case it prints the four measures once each, in a fixed order, and ends with status zero. Asking for help ends with status zero and evaluates nothing.",
["inputs","configurations","fault_sequences"],"all combinations of missing, malformed, unreadable and good files and of unwritable outputs, over small file contents",
"No test runs the tool.",
["tools/GenericKwsEvalTool.h","reader/PlainTextMapEventReader.h","cmd/Parser.h"],
[("error paths","tools/GenericKwsEvalTool.h: Main")])
p("C25","Curve files hold the complete curve or the failure is raised",
"A curve file holds one line per point in order, with both coordinates, and replaces earlier contents. Coordinate lists of different length, an empty file name, and a file that cannot be opened, written or closed are all reported as errors rather than leaving a silently wrong file. The global and mean curve files hold the requested number of points.",
["inputs","fault_sequences"],"all short curves, and a failure of the file at opening or at writing",
"There is no test of curve files.",
["core/Assessment.h","tools/GenericKwsEvalTool.h"],
[("curve output","core/Assessment.h: WriteCurveToFile"),("curve files of the tool","tools/GenericKwsEvalTool.h: WriteGlobalRPCurve, WriteMeanRPCurve")])
p("C26","No input makes the tools crash, hang or touch memory they do not own",
"Whatever bytes the input files hold and whatever options are given, the tools end by themselves with a status and without reading or writing outside their objects, using uninitialised values, overflowing signed numbers or dividing integers by zero. Memory they acquire is released.",
["inputs","configurations"],"all short arbitrary byte strings as each input file, with each option",
"Tests use well-formed inputs only.",
["tools/GenericKwsEvalTool.h","tools/Icdar17KwsEval.cc","tools/SimpleKwsEval.cc","reader/PlainTextMapEventReader.h"],
[("whole run","tools/GenericKwsEvalTool.h: Main")])
p("C27","The dump of matches lists every match and every repeated match",
"The dump holds one line per match: those of the hypotheses first, in the order they were evaluated, each with its events and errors, and then one per reference left free. A title line separates them from the repeated matches, each marked as such, in the order they were found. The dump replaces earlier contents of the file and holds nothing else.",
["inputs"],"all small pairs of reference and hypothesis files with arbitrary queries, boxes and scores, over an existing or a new file",
"No test dumps matches.",
["tools/GenericKwsEvalTool.h","core/Match.h","matcher/SimpleMatcher.h"],
[("dump","tools/GenericKwsEvalTool.h: Main")])
p("C28","The progress messages tell the true counts",
"Each run tells how many references and hypotheses were read and, when a query set or groups leave some out, how many are kept. It tells how many distinct queries and groups were listed. When some hypotheses only repeat earlier matches it tells the number of those that count, which is the number of matches and false positives.",
["inputs","configurations"],"all small pairs of files with every small query set or groups file",
"No test runs the tool.",
["tools/GenericKwsEvalTool.h"],
[("messages","tools/GenericKwsEvalTool.h: Main")])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
