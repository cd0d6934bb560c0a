"""What each harness leaves free, and within which bounds (shown in the evidence).
Numbers in [brackets] name the harness parameter that sets them."""
_TOOL = "whole run of the program on files of up to [refs] references and [hyps] hypotheses (default 2), queries among 2 names, "
BOUNDS = {
 ("values", "h_box"): "two uint32 boxes, all coordinates, right and lower ends and areas representable in 32 bits; one arbitrary cell decides membership of the areas",
 ("values", "h_box_bounds"): "two uint32 boxes, as h_box",
 ("values", "h_box_int"): "two int32 boxes, positions within ±2^28, sides up to 32767",
 ("values", "h_docbox"): "as h_box, with document names of up to 2 arbitrary bytes, optionally behind 20 or 300 common bytes",
 ("values", "h_ord_box"): "every pair of uint32 boxes",
 ("values", "h_ord_doc"): "every pair of uint32 boxes with names of up to 2 arbitrary bytes, optionally behind 20 or 300 common bytes",
 ("values", "h_ord_event"): "queries and documents of up to 1 byte, optionally behind 20 or 300 common bytes, all uint32 boxes",
 ("values", "h_ord_scored"): "every finite or infinite score, names of up to 1 byte, x and y free",
 ("values", "h_ord_int"): "every int32 query and location",
 ("values", "h_ord_sort"): "lists of scored events, sorted both ways",
 ("values", "h_match_copy"): "copy, assign, self-assign, move, swap, set and erase on matches with any combination of sides; one-byte names, free boxes and errors",
 ("values", "h_match_eq"): "every pair of matches over one-byte names",
 ("values", "h_match_make"): "every error share in [0,1)",
 ("values", "h_counts"): "counts up to 2^40, error shares within ±1e30",
 ("scorers", "h_ioh_half"): "boxes with coordinates below 2^[bits=4], threshold 1/2, IEEE",
 ("scorers", "h_iou_half"): "boxes with coordinates below 2^[bits=4], threshold 1/2, IEEE",
 ("scorers", "h_ioh_thr"): "every area below 2^[bits], threshold [tn=1]/[td=2], IEEE",
 ("scorers", "h_iou_thr"): "every area below 2^[bits], threshold [tn=1]/[td=2], IEEE",
 ("scorers", "h_ioh_any"): "every area below 2^24, every float threshold in (0,1], IEEE",
 ("scorers", "h_iou_any"): "every area below 2^24, every float threshold in (0,1], IEEE",
 ("scorers", "h_soft_formula"): "every area below 2^[bits=24], IEEE",
 ("scorers", "h_soft_range"): "every area below 2^24, IEEE",
 ("scorers", "h_soft_box"): "boxes with coordinates below 2^[bits=3], IEEE",
 ("scorers", "h_trivial"): "every int32 query and location",
 ("scorers", "h_trivial_str"): "names of up to 2 arbitrary bytes",
 ("scorers", "h_error_counts"): "every error pair in [0,1]",
 ("sets", "h_set_hist"): "every history of [ops=3] insertions, removals and clears, 2 queries, 2 documents, x and width up to 15 (row of boxes), then one arbitrary lookup",
 ("sets", "h_set_area"): "[refs=3] distinct references in one row, then one arbitrary lookup",
 ("sets", "h_set_2d"): "2 references and a lookup with free two-dimensional boxes below 2^[bits=3]",
 ("sets", "h_set_ctor"): "range constructor from up to 3 events, duplicates included",
 ("sets", "h_set_many"): "18 stored references, one of them and the lookup free",
 ("sets", "h_set_names"): "query and document names of up to 2 arbitrary bytes",
 ("sets", "h_set_int"): "integer queries, signed coordinates within ±20",
 ("sets", "h_set_base"): "the generic event set: every history of [ops=3] operations over integer events",
 ("match", "h_account"): "[refs=2] references (one optionally repeated) and [hyps=3] hypotheses; which overlap, in which order, and the scorer's answer for every pair (any shares in [0,1]) are free",
 ("match", "h_greedy"): "as h_account",
 ("match", "h_reuse"): "two consecutive evaluations with 0..2 references each",
 ("match", "h_real_ioh"): "[refs=2] references and [hyps=2] hypotheses in a row with coordinates below 2^[bits], the overlap-over-hypothesis scorer at 1/2, IEEE by table",
 ("match", "h_real_iou"): "as h_real_ioh with the overlap-over-union scorer",
 ("match", "h_real_trivial"): "2 references and 3 hypotheses over integer events in -2..2, identity scorer",
 ("assess", "h_collapse"): "up to [n=4] matches of any kind, any score within ±1e6 (any finite score when anyscore=1), any shares",
 ("assess", "h_collapse_long"): "20 matches, one of them with any score, at any position",
 ("assess", "h_counts_add"): "counts up to 1000, shares up to 100",
 ("assess", "h_pr"): "up to [n=3] points of up to 2 hypotheses and 2 references each, any shares; real arithmetic",
 ("assess", "h_pr_range"): "3 points; real arithmetic",
 ("assess", "h_pr_matches"): "up to 3 matches of any kind and score; real arithmetic",
 ("assess", "h_pr_long"): "40 points, one of them free at any position; real arithmetic",
 ("assess", "h_ap_curve"): "curves of up to 4 arbitrary points; real arithmetic",
 ("assess", "h_ap_errors"): "up to 3 points with any shares and any precision; real arithmetic",
 ("assess", "h_ap_agree"): "3 points; real arithmetic",
 ("assess", "h_gap"): "up to 3 matches of any kind and score, all options; real arithmetic",
 ("assess", "h_ndcg"): "up to 3 points of up to 2 hypotheses and references, any shares; real arithmetic, exp2 uninterpreted",
 ("assess", "h_gndcg"): "up to 3 matches; real arithmetic",
 ("assess", "h_ndcg_long"): "40 points, one free at any position; real arithmetic",
 ("groups", "h_group"): "up to [n=3] matches of any kind over 3 queries, any mapping to groups (incl. unmapped, incl. a group named like a query)",
 ("groups", "h_group_names"): "string queries of up to 2 arbitrary bytes",
 ("groups", "h_mean_ap"): "up to 2 groups of 1..2 matches of any kind and score, all options; real arithmetic",
 ("groups", "h_mean_ndcg"): "up to 2 groups of 1..2 matches of any kind and score; real arithmetic",
 ("groups", "h_sort"): "up to [n=4] matches of any kind and score (any finite score when anyscore=1)",
 ("groups", "h_sort_long"): "24 matches, one with any score",
 ("groups", "h_sort_desc"): "[n=4] scored events with any scores (any finite score when anyscore=1)",
 ("groups", "h_sort_asc"): "[n=4] scored events with any scores (any finite score when anyscore=1)",
 ("groups", "h_sample"): "up to 3 curve points and 3 positions, all in [0,1], non-decreasing; real arithmetic",
 ("groups", "h_even"): "0..12 points",
 ("groups", "h_write_curve"): "up to [n=3] points with any coordinates, with or without earlier contents",
 ("groups", "h_write_curve_bad"): "0..3 coordinates on each side; failures at open, write and close; empty name",
 ("mapper", "h_names"): "[n=3] names of up to 2 arbitrary bytes",
 ("mapper", "h_names_tree"): "[n=3] names of up to 2 arbitrary bytes, ordered table, 16-bit numbers",
 ("mapper", "h_names_u64"): "names of up to 1 byte, 64-bit unsigned numbers",
 ("mapper", "h_names_i64"): "names of up to 1 byte, 64-bit signed numbers",
 ("mapper", "h_exhaust_i8"): "128 names, then any known or new name",
 ("mapper", "h_exhaust_u8"): "256 names, then any known or new name",
 ("mapper", "h_exhaust_hash"): "128 names in the hash table, then any known or new name",
 ("mapper", "h_own_names"): "every history of [ops=4] uses, copies, assignments and destructions over 3 mappers",
 ("mapper", "h_own_events"): "every history of [ops=4] uses, copies, assignments and destructions over 3 event mappers",
 ("mapper", "h_own_given"): "tables given with or without ownership",
 ("mapper", "h_map_event"): "2 events with names of up to 1 byte, any score",
 ("boot", "h_resample"): "up to [n=3] matches of any kind; every draw free",
 ("boot", "h_resample_query"): "up to [queries=2] queries of up to 2 matches; every draw free",
 ("boot", "h_bounds"): "up to [reps=3] repetitions with any measures, any level in [0,1]; real arithmetic",
 ("boot", "h_bounds_level"): "97 repetitions at every level, 1000 at levels from 0.04 to 0.06, 10000 from 0.0496 to 0.0504, where no quantile falls on a whole number of repetitions; real arithmetic",
 ("boot", "h_bounds_many"): "7, 10 (100, thorough) repetitions, five levels, one measure and the observed value free; real arithmetic",
 ("boot", "h_bounds_sampler"): "up to 2 repetitions with the real sampler; every draw free",
 ("text", "h_read_bytes"): "every file of [n] bytes (byte 1 excluded), string events, by name and by stream",
 ("text", "h_read_names"): "one event of each kind whose query and document have up to [n=3] arbitrary bytes each, optionally behind 200 others",
 ("text", "h_read_tail"): "every tail of up to [n] bytes after 8 different beginnings",
 ("text", "h_mutate_ref"): "a valid file of references with one byte replaced, inserted or removed at any position",
 ("text", "h_mutate_hyp"): "a valid file of hypotheses with one byte replaced, inserted or removed at any position",
 ("text", "h_mutate_simple"): "a valid file of plain scored events with one byte replaced, inserted or removed at any position",
 ("text", "h_layout_ref"): "[lines=2] lines, each an event, a comment or blank; any separators, names and digits free; last newline optional",
 ("text", "h_layout_hyp"): "as h_layout_ref, with scores in four forms",
 ("text", "h_read_big"): "numbers of up to 11 digits around 2^32, the last two digits free",
 ("text", "h_read_lineno"): "4 lines of 4 kinds with the wrong line anywhere, after an earlier read or not",
 ("text", "h_read_missing"): "a missing and an empty file",
 ("text", "h_read_mapped"): "2 events through a name mapper",
 ("text", "h_trip_box"): "every uint32 and int32 box",
 ("text", "h_trip_doc"): "names of up to [len=3] bytes that are not blanks, every uint32 box",
 ("text", "h_trip_event"): "query of up to 2 bytes, document of 1, every uint32 box, scores k/8 for |k|<8000 and a table of scores that exercise the formatting",
 ("text", "h_text_fields"): "every uint32 field and score k/8, one-byte names",
 ("text", "h_text_again"): "any two of ten kinds of things, with names of one byte, any coordinates and four scores",
 ("text", "h_text_match"): "matches with any combination of sides, score k/8, error shares k/4",
 ("cmd", "h_words"): "up to [n=3] words out of options, values, dashes and words of up to [len] arbitrary bytes",
 ("cmd", "h_names"): "option words of up to [len=7] arbitrary bytes",
 ("cmd", "h_value_in"): "values of up to [len=4] arbitrary bytes",
 ("cmd", "h_value_un"): "values of up to [len=4] arbitrary bytes",
 ("cmd", "h_value_so"): "values of up to [len] arbitrary bytes",
 ("cmd", "h_value_sort"): "values of up to 4 arbitrary bytes",
 ("cmd", "h_value_bo"): "values of up to 5 arbitrary bytes",
 ("cmd", "h_value_big"): "numbers around the limits of both integer types, three digits free",
 ("cmd", "h_twice"): "[n=3] options out of five, each with a value of one byte, names repeated at will",
 ("cmd", "h_big"): "[options=70] options with names of 59 to 121 characters and values of up to 4240, [arguments=20] arguments and [optional=20] optional ones; the last letter of one name and of one value arbitrary",
 ("cmd", "h_args"): "0..2 mandatory and 0..2 optional arguments, 0..5 given, any type, words of up to 2 bytes",
 ("cmd", "h_register"): "names of up to 3 letters",
 ("cmd", "h_release"): "parsers with 1..6 options and arguments",
 ("cmd", "h_help"): "0..2 options, mandatory and optional arguments; one letter of any name, text or value free",
 ("cmd", "h_help_values"): "values of every type",
 ("*", "h_eval"): _TOOL + "any scores (or levels), boxes in a row with x, w ≤ 3; options of [mask] free; [stdin] hypotheses from standard input",
 ("*", "h_order"): _TOOL + "every rotation of the references and permutation of the hypotheses, and a second run",
 ("*", "h_sort"): _TOOL + "the four sorting criteria",
 ("*", "h_sort_word"): "any sorting criterion of up to [len=10] bytes, on three hypotheses and two references",
 ("*", "h_dump_big"): "[refs=90] references and [hyps=140] hypotheses, one of any score, names of up to 63 characters",
 ("*", "h_queryset"): _TOOL + "query set files of up to 2 queries with four separators",
 ("*", "h_groups"): _TOOL + "query group files of up to 2 lines with up to 2 queries each and three kinds of line ends",
 ("*", "h_info"): _TOOL + "no restriction, query sets and groups of up to 2 queries",
 ("*", "h_status"): "whole run with up to [faults=1] faults among inputs and query files that are missing, malformed or fail while being read (at the start, after a line, within a line; files and standard input), and outputs (files, standard output) that cannot be opened or written, or without faults and with files without events",
 ("*", "h_usage"): "whole run with help, without arguments, with too many, with unknown options and with wrong or missing values",
 ("*", "h_curves"): _TOOL + "2, 3 or 4 curve points, options of [mask] free",
 ("*", "h_dump"): _TOOL + "with or without earlier contents of the dump",
 ("*", "h_boot"): _TOOL + "up to [reps=1] repetitions of each of the four measures, every draw free",
 ("*", "h_any_file"): "whole run with [n] arbitrary bytes (byte 1 excluded) in any one of the five input roles, after up to 3 different beginnings",
 ("*", "h_any_box"): "whole run on one reference and one hypothesis with every uint32 coordinate",
 ("*", "h_long_text"): "whole run with a word, name, line, option or file name of 100, 1000 or 5000 characters, one of them an arbitrary lower-case letter, in each of 15 places",
 ("*", "h_any_option"): "whole run with one option followed by a value of up to [n=2] arbitrary bytes",
 ("*", "h_release"): "seven representative whole runs; everything acquired is released",
}
AGAIN = "; then other fixed inputs in the same containers, and the first ones again"
for _k in [("assess", h) for h in ("h_collapse", "h_pr", "h_pr_matches", "h_ap_curve", "h_ap_errors", "h_gap", "h_ndcg", "h_gndcg")] + [("groups", h) for h in ("h_group", "h_mean_ap", "h_mean_ndcg", "h_sort", "h_sample", "h_even", "h_write_curve")] + [("boot", h) for h in ("h_resample", "h_resample_query", "h_bounds")] + [("scorers", h) for h in ("h_ioh_half", "h_iou_half", "h_ioh_thr", "h_iou_thr", "h_soft_formula", "h_soft_box", "h_trivial", "h_trivial_str")]:
    BOUNDS[_k] += AGAIN
BOUNDS.update({
 ("assess", "h_collapse_big"): "[n=300] matches, one of them with any score; first, middle or near the end",
 ("assess", "h_pr_big"): "[n=300] points, one near the end with 300 hypotheses and any shares; real arithmetic",
 ("assess", "h_ap_big"): "[n=300] points, one with 300 hypotheses and any shares and precision; real arithmetic",
 ("assess", "h_ndcg_big"): "[n=300] points, one with 300 hypotheses and any shares; real arithmetic, exp2 uninterpreted",
 ("groups", "h_group_big"): "[n=300] groups, one query free among 0, 140, 280",
 ("groups", "h_mean_ap_big"): "40 groups of 1..3 matches, one with any score; real arithmetic",
 ("groups", "h_mean_ndcg_big"): "40 groups of 1..3 matches, one with any score; real arithmetic",
 ("groups", "h_sort_big"): "[n=300] matches, one with any score",
 ("groups", "h_sample_big"): "curves of [n=300] points, one with any value, 11 positions, one of them free in a small interval; real arithmetic",
 ("sets", "h_set_again"): "two free references, lookups of one free hypothesis before, between and after every insertion, removal and clear; a second set beside",
 ("sets", "h_set_big"): "[refs=300] references in one document, in many documents or of many queries; the width of the lookup is free",
 ("match", "h_match_big"): "[n=300] references and as many or three times as many hypotheses over integer events, one hypothesis new or repeated, with any score",
 ("match", "h_match_crowd"): "48 boxes of one document, 54 hypotheses each overlapping nearly all of them, so that they are taken in turn; one reference of any width in 24..24+[widths=4] and either query; IoH and IoU",
 ("*", "h_list_names"): "a query and the first name of a list of up to [n=2] arbitrary non-blank bytes each, in a query set and in query groups",
 ("*", "h_list_big"): "[refs=150] references and [hyps=170] hypotheses of up to 132 queries, one of any score within 10 of 0; about 130 queries listed in four ways (one per line, one line with repetitions, small groups of two lines, a large group)",
 ("*", "h_curves_big"): "[refs=60] references and [hyps=90] hypotheses, one of any score within 10 of 0; curves of 101, 300 (and, with [sizes=2], 1500) points",
 ("*", "h_together"): "3 references and 5 hypotheses, [free=1] of them of any score; every combination of query set, query groups, sorting, collapsing, dump, curves, bounds without repetitions and standard input",
 ("*", "h_boot_many"): "6 references and 9 hypotheses, one of any score, [reps=41] repetitions, five levels and two seeds; one draw of the first resample arbitrary, the others fixed",
 ("*", "h_boot_order"): _TOOL + "any scores, the four sorting criteria, each of the four measures without repetitions",
 ("boot", "h_resample_big"): "[n=150] matches; the draw at one of four positions arbitrary, the others fixed",
 ("boot", "h_resample_query_big"): "[queries=140] queries of 0 to 270 matches; the draw at one of four positions arbitrary, the others fixed",
 ("*", "h_eval_big"): "whole run on [refs=90] references and [hyps=140] hypotheses of 15 queries in 11 documents, one hypothesis with any score (quick: within 20 of 0)",
 ("*", "h_lineno"): "a malformed line of 3 kinds after up to 3 lines of 4 kinds, in either file or on standard input",
 ("text", "h_read_long"): "all four event types, names and blanks of 20 to 70000 bytes with one arbitrary byte",
 ("text", "h_read_many"): "[lines=300] lines with comments, with and without a malformed one, one arbitrary byte",
 ("mapper", "h_names_many"): "[n=300] names, then one whose last digit is free",
 ("mapper", "h_names_many_tree"): "[n=600] names, then one whose last digit is free",
})

def of(src, entry):
    return BOUNDS.get((src, entry)) or BOUNDS.get(("*", entry)) or ""
