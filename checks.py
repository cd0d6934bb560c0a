NOT_APPLICABLE = {}
COMMON_ASSUMPTIONS = [
 "inputs outside the bounds of each harness are not covered",
 "iostream, fstream, sstream and random are replaced by the models in shim/ (DESIGN.md section 3); sample paths are replayed on the real libraries",
 "memory allocation does not fail; hash functions return a constant",
 "clang 18 -O1 IR of the sources; counterexamples are replayed on a g++ build with ASan and UBSan",
 "harnesses marked real_arithmetic read floating point as real numbers and ignore rounding",
]
def H(src, entry, covers=(), **k):
    return dict(src=src, entry=entry, covers=list(covers), **k)
# whole runs on boxes: the overlap ratio is tabulated for areas below 16
def T(src, entry, covers=(), **k):
    return H(src, entry, covers, fptab=16, **k)
CHECKS = {
 "C02": dict(harnesses=[H("values","h_box",["overlap","disjoint"]),H("values","h_box_bounds",["overlap"]),H("values","h_box_int",["negative-overlap"]),H("values","h_docbox",["other-document","same-document-overlap"])]),
 "C03": dict(harnesses=[H("values","h_ord_box",["equal","less","greater"]),H("values","h_ord_doc",["equal","less","greater"]),H("values","h_ord_event",["equal","less","greater"]),H("values","h_ord_scored",["equal","less","greater","score-first"]),H("values","h_ord_int",["equal","less","greater"]),H("values","h_ord_sort",["sorted"])]),
 "C21": dict(harnesses=[H("values","h_match_copy",["mixed"]),H("values","h_match_eq",["equal","different"]),H("values","h_match_make",["made"]),H("values","h_counts")]),
 "C04": dict(harnesses=[
  H("scorers","h_ioh_half",["hit","miss","exactly-half","empty-hypothesis"]),
  H("scorers","h_iou_half",["hit","miss","exactly-half"]),
  H("scorers","h_ioh_thr",["hit","miss","exactly-at-threshold"],params=dict(bits=16),tparams=dict(bits=24)),
  H("scorers","h_ioh_thr",["hit","miss","exactly-at-threshold"],params=dict(bits=12,tn=3,td=4)),
  H("scorers","h_iou_thr",["hit","miss","exactly-at-threshold"],params=dict(bits=12),tparams=dict(bits=16)),
  H("scorers","h_iou_thr",["hit","miss","exactly-at-threshold"],params=dict(bits=12,tn=1,td=4)),
  H("scorers","h_ioh_any",["hit","miss"]),
  H("scorers","h_iou_any",["hit","miss"])]),
 "C05": dict(harnesses=[
  H("scorers","h_soft_formula",["other-query","fp","fn","empty-hyp","empty-ref"]),
  H("scorers","h_soft_formula",["other-query","fp","fn","empty-hyp","empty-ref"],params=dict(bits=4)),
  H("scorers","h_soft_range",["partial"]),
  H("scorers","h_soft_box",["other-query","fp","fn","empty-hyp","empty-ref"],params=dict(bits=2),tparams=dict(bits=3)),
  H("scorers","h_trivial",["hit","miss"]),
  H("scorers","h_trivial_str",["hit","miss"]),
  H("scorers","h_error_counts",["counted"])]),
 "C06": dict(harnesses=[
  H("sets","h_set_hist",["duplicate","removed","absent","clear","tie","ordered","nothing-overlaps"],tparams=dict(ops=4),weight=9),
  H("sets","h_set_area",["tie","ordered","nothing-overlaps"],weight=8),
  H("sets","h_set_2d",["tie","ordered","nothing-overlaps"],params=dict(bits=2),tparams=dict(bits=3)),
  H("sets","h_set_ctor",["duplicate","tie","ordered","nothing-overlaps"],weight=5),
  H("sets","h_set_many",["tie","ordered"]),
  H("sets","h_set_again",["removed","clear","duplicate","tie","ordered"],weight=4),
  H("sets","h_set_big",["big"],steps=400000000,weight=4),
  H("sets","h_set_names",["found","other"]),
  H("sets","h_set_int",["one","two"]),
  H("sets","h_set_base",["found","missing","removed","duplicate"])]),
 "C07": dict(harnesses=[
  H("match","h_account",["match","false-positive","false-negative","repeated","duplicate-reference"]),
  H("match","h_account",["match","false-positive","false-negative","repeated","duplicate-reference"],params=dict(refs=3,hyps=2)),
  H("match","h_reuse",["repeated-again"]),
  H("match","h_real_ioh",["first-choice","second-choice","repeated","false-positive","false-negative","duplicate-reference"],params=dict(bits=3),fptab=16),
  H("match","h_match_big",["big","repeated"]),
  H("match","h_match_crowd",["crowd","first-choice","second-choice","repeated","false-negative"],fptab=128,steps=400000000,weight=4,tparams=dict(widths=9)),
  H("match","h_real_trivial",["match","repeated"])]),
 "C08": dict(harnesses=[
  H("match","h_greedy",["first-choice","second-choice","repeated","false-positive","duplicate-reference"]),
  H("match","h_greedy",["first-choice","second-choice","repeated","false-positive","duplicate-reference"],params=dict(refs=3,hyps=2)),
  H("match","h_real_ioh",["first-choice","second-choice","repeated","false-positive","false-negative","duplicate-reference"],params=dict(bits=3),fptab=16,weight=5),
  H("match","h_real_ioh",["first-choice","second-choice","repeated","false-positive","false-negative","duplicate-reference"],params=dict(bits=2,refs=2,hyps=2,vary=1),fptab=16,weight=5),
  H("match","h_real_iou",["first-choice","second-choice","repeated","false-positive","false-negative","duplicate-reference"],params=dict(bits=2),tparams=dict(bits=3),fptab=16,weight=6),
  H("match","h_match_big",["big","repeated"]),
  H("match","h_match_crowd",["crowd","first-choice","second-choice","repeated","false-negative"],fptab=128,steps=400000000,weight=4,tparams=dict(widths=9)),
  H("match","h_real_trivial",["match","repeated"])]),
 "C09": dict(harnesses=[
  H("assess","h_collapse",["merged","all-different","false-negatives-merged"],real=True),
  H("assess","h_collapse",["merged","all-different","false-negatives-merged"],real=True,params=dict(n=5,soft=0),tparams=dict(n=6,soft=0)),
  H("assess","h_collapse",["merged","all-different","false-negatives-merged"],params=dict(n=3,soft=0,anyscore=1),tparams=dict(n=4,soft=0,anyscore=1)),
  H("assess","h_collapse_long",["joined","split"],real=True),
  H("assess","h_collapse_big",["joined","split"],steps=400000000,real=True,tparams=dict(n=3000)),
  H("values","h_counts"),
  H("assess","h_counts_add",["added"],real=True)]),
 "C10": dict(harnesses=[
  H("assess","h_pr",["no-references","no-hypotheses-yet","interpolated"],real=True,tparams=dict(n=4)),
  H("assess","h_pr_range",["ranged"],real=True),
  H("assess","h_pr_matches",["collapsed"],real=True,tparams=dict(n=4)),
  H("assess","h_pr_long",["long"],real=True),
  H("assess","h_pr_big",["big"],steps=400000000,real=True,tparams=dict(n=1500))]),
 "C11": dict(harnesses=[
  H("assess","h_ap_curve",["curve"],real=True,tparams=dict(n=6)),
  H("assess","h_ap_errors",["no-references","references"],real=True,tparams=dict(n=4)),
  H("assess","h_ap_agree",["agree"],real=True),
  H("assess","h_ap_big",["big"],steps=400000000,real=True,tparams=dict(n=1500)),
  H("assess","h_gap",["no-hits"],real=True,params=dict(soft=1),tparams=dict(soft=1,n=4)),
  H("assess","h_gap",["no-hits","perfect"],real=True,params=dict(soft=0),tparams=dict(soft=0,n=4)),
  H("simple","h_eval",["hit","repeated","false-positive","false-negative"],params=dict(hyps=3,refs=1,mask=7,only=1),tparams=dict(hyps=3,refs=2,mask=7,only=1))]),
 "C12": dict(harnesses=[
  H("assess","h_ndcg",["no-references","references"],real=True,tparams=dict(n=4)),
  H("assess","h_gndcg",["no-hits"],real=True,params=dict(soft=1),tparams=dict(soft=1,n=4)),
  H("assess","h_gndcg",["no-hits","perfect"],real=True,params=dict(soft=0),tparams=dict(soft=0,n=4)),
  H("assess","h_ndcg_long",["long"],real=True),
  H("assess","h_ndcg_big",["big"],steps=400000000,real=True,tparams=dict(n=1500)),
  H("simple","h_eval",["hit","repeated","false-positive","false-negative"],params=dict(hyps=3,refs=1,mask=7,only=4),tparams=dict(hyps=3,refs=2,mask=7,only=4))]),
 "C13": dict(harnesses=[
  H("groups","h_group",["several-groups","shared-group"],real=True,params=dict(n=3),tparams=dict(n=4)),
  H("groups","h_group_names",["one","two"],real=True),
  H("groups","h_group_big",["several-groups","shared-group"],steps=400000000,tparams=dict(n=1000)),
  H("groups","h_mean_ap_big",["big"],real=True),
  H("groups","h_mean_ndcg_big",["big"],real=True),
  H("groups","h_mean_ap",["groups","sorted","no-groups"],real=True),
  H("groups","h_mean_ndcg",["groups","sorted","no-groups"],real=True),
  H("simple","h_eval",["hit","repeated","false-positive","false-negative"],params=dict(hyps=2,mask=7),tparams=dict(hyps=3,refs=2,mask=7)),
  H("simple","h_groups",["left-out","joined","two-groups"],params=dict(refs=1),tparams=dict(refs=2))]),
 "C19": dict(harnesses=[
  H("groups","h_sample",["beyond","step","segment"],real=True,tparams=dict(n=4,k=4)),
  H("groups","h_sample_big",["big"],steps=400000000,real=True,tparams=dict(n=3000)),
  H("groups","h_even",["none","positions"]),
  H("simple","h_curves",["two-groups","nothing"],params=dict(hyps=3,mask=4),tparams=dict(hyps=3,mask=7)),
  T("icdar","h_curves",["two-groups","nothing"],params=dict(mask=4),tparams=dict(mask=7))]),
 "C25": dict(harnesses=[
  H("groups","h_write_curve",["points","no-points"],tparams=dict(n=6)),
  H("groups","h_write_curve_bad",["failed","written"]),
  H("simple","h_curves",["two-groups","nothing"],tparams=dict(hyps=3)),
  T("icdar","h_curves",["two-groups","nothing"],params=dict(refs=1),tparams=dict(refs=2)),
  H("simple","h_curves_big",["big"],params=dict(mask=6),tparams=dict(sizes=2,mask=7),steps=400000000),
  T("icdar","h_curves_big",["big"],params=dict(mask=6),tparams=dict(sizes=2,mask=7),steps=400000000),
  T("icdar","h_together",["dumped","curves","groups","bounds"],tparams=dict(free=2)),
  H("simple","h_status",["good","input","output","no-events"],tparams=dict(faults=2))]),
 "C14": dict(harnesses=[
  H("simple","h_queryset",["some-references","some-hypotheses","nothing-left"],tparams=dict(hyps=3)),
  H("simple","h_groups",["left-out","joined","two-groups"],params=dict(refs=1),tparams=dict(refs=2)),
  T("icdar","h_queryset",["some-hypotheses","nothing-left"],params=dict(refs=1),tparams=dict(refs=2)),
  T("icdar","h_groups",["left-out","joined","two-groups"],params=dict(refs=1,hyps=1),tparams=dict(refs=1,hyps=2)),
  H("simple","h_list_names",["groups","both","one"],params=dict(n=3),tparams=dict(n=4)),
  T("icdar","h_list_names",["groups","both","one"],tparams=dict(n=4)),
  H("simple","h_list_big",["big"],steps=400000000),
  T("icdar","h_list_big",["big"],steps=400000000),
  H("simple","h_together",["dumped","curves","groups","bounds"],tparams=dict(free=2)),
  H("simple","h_status",["good","input","output","no-events"],tparams=dict(faults=2))]),
 "C20": dict(harnesses=[
  H("simple","h_eval",["hit","repeated","false-positive","false-negative","duplicate-reference"],params=dict(hyps=3,mask=7),tparams=dict(hyps=4,refs=3,mask=7)),
  H("simple","h_eval",["hit","repeated","false-positive","files","stdin"],params=dict(mask=15,spellings=2,stdin=1),tparams=dict(hyps=3,mask=15,spellings=2,stdin=1)),
  T("icdar","h_eval",["hit","repeated","false-positive","false-negative","duplicate-reference"],params=dict(mask=0),tparams=dict(mask=0,hyps=3)),
  T("icdar","h_eval",["hit","repeated","false-positive","false-negative"],params=dict(refs=1,mask=15,spellings=2,stdin=1),tparams=dict(refs=2,mask=15,spellings=2,stdin=1)),
  H("simple","h_eval_big",["big"],params=dict(mask=7),tparams=dict(mask=7,narrow=0),steps=400000000),
  T("icdar","h_eval_big",["big"],params=dict(mask=7),tparams=dict(mask=7,narrow=0),steps=400000000),
  H("simple","h_order",["reordered","again"],params=dict(hyps=3),tparams=dict(hyps=3,refs=3)),
  T("icdar","h_order",["reordered","again"]),
  H("simple","h_together",["dumped","curves","groups","bounds"],tparams=dict(free=2)),
  T("icdar","h_together",["dumped","curves","groups","bounds"],tparams=dict(free=2))]),
 "C24": dict(harnesses=[
  H("simple","h_status",["good","input","output","no-events"],tparams=dict(faults=9)),
  H("icdar","h_status",["good","input","output","no-events"],tparams=dict(faults=9)),
  H("simple","h_usage",["help","wrong"]),
  H("icdar","h_usage",["help","wrong"])]),
 "C26": dict(harnesses=[
  H("simple","h_any_file",["evaluated","refused"],params=dict(n=4),tparams=dict(n=6)),
  T("icdar","h_any_file",["evaluated","refused"],params=dict(n=4),tparams=dict(n=6)),
  H("simple","h_any_option",["accepted","refused"],tparams=dict(n=3)),
  H("icdar","h_any_option",["accepted","refused"],tparams=dict(n=3)),
  H("icdar","h_any_box",["hit","false-positive"]),
  H("simple","h_long_text",["evaluated","refused"]),
  H("icdar","h_long_text",["evaluated","refused"]),
  H("simple","h_release",["released"]),
  H("icdar","h_release",["released"])]),
 "C27": dict(harnesses=[
  H("simple","h_dump",["dumped","hit","repeated","false-positive","false-negative"],params=dict(hyps=3),tparams=dict(hyps=4)),
  H("simple","h_dump_big",["dumped","hit","repeated","false-positive","false-negative"],steps=400000000,tparams=dict(refs=300,hyps=500)),
  H("icdar","h_dump_big",["dumped","hit","repeated","false-positive","false-negative"],steps=400000000,tparams=dict(refs=200,hyps=300)),
  T("icdar","h_dump",["dumped","hit","repeated","false-positive","false-negative"],tparams=dict(hyps=3)),
  H("text","h_text_match",["both","false-positive","false-negative"])]),
 "C28": dict(harnesses=[
  H("simple","h_info",["left-out","not-all-count"],params=dict(hyps=3),tparams=dict(hyps=3,queries=3)),
  T("icdar","h_info",["left-out","not-all-count"],params=dict(refs=1),tparams=dict(refs=2)),
  H("simple","h_list_big",["big"],steps=400000000),
  T("icdar","h_list_big",["big"],steps=400000000)
  ]),
 "C22": dict(harnesses=[
  H("groups","h_sort",["negative-first","tie"],real=True,tparams=dict(n=5)),
  H("groups","h_sort",["negative-first","tie"],params=dict(n=3,anyscore=1),tparams=dict(n=4,anyscore=1)),
  H("groups","h_sort_long",["sorted"],real=True),
  H("groups","h_sort_big",["sorted"],steps=400000000,real=True,tparams=dict(n=1500)),
  H("groups","h_sort_desc",["tie"],real=True),
  H("groups","h_sort_asc",["tie"],real=True),
  H("groups","h_sort_desc",["tie"],params=dict(n=3,anyscore=1),tparams=dict(n=4,anyscore=1)),
  H("groups","h_sort_asc",["tie"],params=dict(n=3,anyscore=1),tparams=dict(n=4,anyscore=1)),
  H("simple","h_sort_word",["known","unknown"]),
  H("icdar","h_sort_word",["known","unknown"]),
  H("simple","h_sort",["sorted"],params=dict(hyps=3)),
  T("icdar","h_sort",["sorted"],tparams=dict(hyps=3))]),
 "C01": dict(harnesses=[
  H("text","h_read_bytes",["no-events","read","refused"],tparams=dict(n=7)),
  H("text","h_read_tail",["several","no-events","refused"],tparams=dict(n=5)),
  H("text","h_read_names",["read"],tparams=dict(n=4)),
  H("text","h_mutate_ref",["read","refused"]),
  H("text","h_mutate_ref",["read","refused","several"],params=dict(form=1)),
  H("text","h_mutate_hyp",["read","refused"],weight=3),
  H("text","h_mutate_hyp",["read","refused","several"],params=dict(form=1),weight=5),
  H("text","h_mutate_simple",["read","refused","several"],weight=4),
  H("text","h_layout_ref",["all-events","no-events"]),
  H("text","h_layout_ref",["all-events","no-events"],params=dict(free=1),tparams=dict(lines=3)),
  H("text","h_layout_hyp",["all-events","no-events"],weight=4),
  H("text","h_read_big",["fits","out-of-range"]),
  H("text","h_read_lineno",["last-line","second-read"]),
  H("text","h_read_long",["long"],steps=400000000),
  H("text","h_read_many",["read","refused"],steps=400000000,tparams=dict(lines=3000)),
  H("text","h_read_missing",["done"]),
  H("simple","h_lineno",["stdin","file"]),
  H("icdar","h_lineno",["stdin","file"]),
  H("text","h_read_mapped",["mapped"])]),
 "C23": dict(harnesses=[
  H("text","h_trip_box",["trip"]),
  H("text","h_trip_doc",["trip"],tparams=dict(len=6)),
  H("text","h_trip_event",["trip"]),
  H("text","h_text_fields",["fields"]),
  H("text","h_text_again",["written"]),
  H("text","h_text_match",["both","false-positive","false-negative"])]),
 "C15": dict(harnesses=[
  H("mapper","h_names",["known-and-new","all-new"],tparams=dict(n=4)),
  H("mapper","h_names_tree",["known-and-new","all-new"],tparams=dict(n=4)),
  H("mapper","h_names_u64",["known-and-new","all-new"],params=dict(n=3)),
  H("mapper","h_names_i64",["known-and-new","all-new"],params=dict(n=3)),
  H("mapper","h_names_many",["many"],tparams=dict(n=1500)),
  H("mapper","h_names_many_tree",["many"],tparams=dict(n=70000),steps=2000000000),
  H("mapper","h_exhaust_i8",["known","refused"]),
  H("mapper","h_exhaust_u8",["known","refused"]),
  H("mapper","h_exhaust_hash",["known","refused"]),
  H("mapper","h_own_names",["assigned","copied","destroyed"],tparams=dict(ops=5)),
  H("mapper","h_own_events",["assigned","copied","destroyed"],tparams=dict(ops=5)),
  H("mapper","h_own_given",["owned","borrowed"]),
  H("mapper","h_map_event",["scored"])]),
 "C16": dict(harnesses=[
  H("boot","h_resample",["empty","first","last"],tparams=dict(n=4)),
  H("boot","h_resample_query",["empty","last","other-query"],tparams=dict(queries=3)),
  H("boot","h_resample_big",["big"],tparams=dict(n=400),steps=400000000),
  H("boot","h_resample_query_big",["big"],tparams=dict(queries=300),steps=400000000)]),
 "C17": dict(harnesses=[
  H("boot","h_bounds",["none","inner","extremes"],real=True,tparams=dict(reps=4)),
  H("boot","h_bounds_many",["many"],real=True,params=dict(sizes=1),tparams=dict(sizes=3)),
  H("boot","h_bounds_level",["level"],real=True,steps=400000000),
  H("boot","h_bounds_sampler",["seeded"]),
  H("simple","h_boot",["bounds","hit","repeated"],params=dict(reps=2),tparams=dict(reps=2,refs=2),weight=3),
  H("simple","h_boot",["bounds","hit","repeated"],params=dict(reps=1,refs=2),tparams=dict(reps=1,refs=2,hyps=3),weight=3),
  T("icdar","h_boot",["bounds","hit","repeated"],tparams=dict(reps=2,hyps=2)),
  H("simple","h_boot_many",["many"],tparams=dict(wide=1,reps=43),steps=400000000,weight=2),
  T("icdar","h_boot_many",["many"],params=dict(reps=11),tparams=dict(wide=1,reps=43),steps=400000000,weight=2),
  H("simple","h_boot_order",["agrees"],tparams=dict(hyps=3,refs=2)),
  T("icdar","h_boot_order",["agrees"],params=dict(M=2),tparams=dict(M=3))]),
 "C18": dict(harnesses=[
  H("cmd","h_words",["accepted","help","rejected","options-ended","bare-flag"],params=dict(len=2),tparams=dict(n=4,len=2)),
  H("cmd","h_names",["accepted","help","rejected"],tparams=dict(len=9)),
  H("cmd","h_value_in",["accepted","rejected"],tparams=dict(len=6)),
  H("cmd","h_value_un",["accepted","rejected"],tparams=dict(len=6)),
  H("cmd","h_value_so",["accepted","rejected"],real=True,params=dict(len=4),tparams=dict(len=6)),
  H("cmd","h_value_sort",["accepted"]),
  H("cmd","h_value_bo",["accepted","rejected"]),
  H("cmd","h_value_big",["fits","too-big"]),
  H("cmd","h_twice",["set"],tparams=dict(n=4)),
  H("cmd","h_big",["accepted","rejected"]),
  H("cmd","h_args",["accepted","extra","missing","wrong-type"]),
  H("cmd","h_register",["refused","two"]),
  H("cmd","h_release",["released"]),
  H("cmd","h_help",["all"]),
  H("cmd","h_help_values",["values"])]),
}

# Not a property: the models of the standard library against the real one (python3 check.py MODEL).
SELFTEST = {"MODEL": dict(par=8, harnesses=[H("model", "t_" + n) for n in
 "alg ctype deque except file func list math sets shared stable sto str streams tostr tuple".split()])}
