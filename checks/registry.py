"""Which harness cases decide which property, with their bounds."""
import json
import os

from engine.explore import Case

HERE = os.path.dirname(os.path.abspath(__file__))

COMMON_ASSUMPTIONS = [
    "CPython executes the proxies as it executes the corresponding built-in values",
    "arithmetic is exact (integers, rationals); IEEE rounding is outside the claim",
]


def known_findings():
    p = os.path.join(os.path.dirname(HERE), "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


PROPS = {}


def prop(pid, bounds, reach=(), assumptions=(), **kw):
    def deco(f):
        PROPS[pid] = dict(cases=f, bounds=bounds, reach=list(reach), assumptions=list(assumptions), **kw)
        return f
    return deco


MGR_ASSUME = ["constraint types are the two documented ones except where invalid ones are passed on purpose",
              "IDs are distinct strings; their sort order is symbolic in the '-sym' cases and fixed (unsorted insertion) elsewhere"]
ALLK = ("add", "del", "delid", "addid")


def merged(name, n=4, managed=None, order="sym", how="lex", k=0, kinds=("add", "del", "delid", "addid"), what=("inferred",), fn="state", **more):
    """A case of the path-merging engine: one formula for all inputs."""
    return Case("merged-" + name, "merged:" + fn, dict(n=n, managed=managed or n, order=order, how=how, k=k, kinds=kinds, what=what, **more))


def merged_cases(tier, w):
    cs = [merged("graph4", what=w, how="odd"), merged("graph5", n=5, what=w),
          merged("graph4-del", k=1, kinds=("del",), what=w, how="odd"),
          merged("hist3", n=3, managed=2, how=None, k=3, what=w), merged("hist3-ask", n=3, managed=2, how=None, k=3, what=w, ask=True)]
    if tier == "thorough":
        cs += [merged("graph4-op", k=1, kinds=("add", "del", "delid"), what=w), merged("graph5-odd", n=5, how="odd", what=w), merged("graph6", n=6, what=w),
               merged("hist3-k4", n=3, managed=2, how=None, k=4, what=w), merged("graph5-del", n=5, k=1, kinds=("del",), what=w),
               merged("graph4-del2", n=4, k=2, kinds=("del",), what=w)]
    return cs


# Larger fixed structures around a few arbitrary choices: 12 IDs
_ML, _CL = "MUST_LINK", "CANNOT_LINK"
W_CHAIN = [(i, i + 1, _ML) for i in range(5)] + [(5, 6, _CL), (7, 6, _ML), (8, 7, _ML), (9, 8, _CL), (0, 9, _CL)]
W_STAR = [(2, 1, _ML), (3, 4, _ML), (5, 6, _ML), (8, 7, _ML)] + [(0, i, _CL) for i in (1, 3, 5, 7, 9, 10, 11)]
W_FULL = [(i, i + 3, _ML) for i in range(9)] + [(0, 1, _CL), (5, 4, _CL)]        # three groups of four, two of the three separations
W_EDGES = [(2, 10), (9, 11)]


# positions of 9 points of a line, arbitrary where None; labels of 12 IDs
W_FIX = [0, 2, 5, 9, 14, 15, 22, None, 30, 18]
W_PRE = [(0, 4, _ML), (1, 5, _CL), (3, 2, _CL)]
W_OPEN = [(a, b, _CL) for a in range(4) for b in range(a)] + [(0, 4, _ML), (5, 1, _ML), (8, 2, _CL), (6, 5, _CL)]
W_POS = [0, 2, 5, 9, 14, None, 22, 31, 29, 50, 71, 40, 3]
W_LAB = [0, 1, 0, 2, 1, 1, None, 0, 2, 1, 10, 10]
W_GRID = [[v, 0] for v in (-3, 1, 7, 12, 22, 26, 60)]


LINE9 = dict(n=9, order="mix", vec="line", _fix=W_FIX, _preset=W_PRE, edges=[(6, 7)])


def wide(name, fn, preset=W_CHAIN, edges=W_EDGES, **params):
    return Case(name, fn, dict(dict(n=12, order="mix", how="lex"), _preset=preset, _edges=edges, **params))


S_EDGES = [(1, 2), (3, 0), (0, 1)]


def seps(fn, edges=S_EDGES, **params):
    """IDs of which different pairs read the same when their texts are joined."""
    return Case("seps", fn, dict(dict(n=4, order="sep", how="lex"), _edges=edges, **params))


def mgr_cases(tier, w, hist=True, merges=True):
    cs = merged_cases(tier, w) + [
        Case("graph4-sym", "mgr:graph_state", dict(n=4, order="sym", how="lex", what=w)),
        Case("graph4-rev", "mgr:graph_state", dict(n=4, order="mix", how="rev", what=w)),
        Case("graph5-mix", "mgr:graph_state", dict(n=5, order="mix", how="odd", what=w)),
        Case("forest6", "mgr:forest_state", dict(n=6, order="mix", what=w)),
    ]
    if hist:
        cs += [Case("hist3-sym", "mgr:history_state", dict(n=3, spare=1, k=3, order="sym", what=w, kinds=ALLK)),
               Case("hist2-long", "mgr:history_state", dict(n=2, spare=1, k=5, order="mix", what=w, kinds=ALLK, _ask=True)),
               Case("graph4-op", "mgr:graph_then_each_op", dict(n=4, spare=1, order="mix", how="odd", what=w, kinds=ALLK + ("addrev", "delrev"), _ask=True))]
    cs += [seps("mgr:graph_then_each_op", spare=0, what=w, kinds=("add", "del", "delid"))]
    if hist:
        cs += [wide("wide12", "mgr:graph_then_each_op", spare=1, what=w, kinds=ALLK), wide("wide12-star", "mgr:graph_then_each_op", preset=W_STAR, edges=[(1, 4), (9, 10)], spare=1, what=w, kinds=ALLK)]
    if merges:
        cs += [Case("merge-222", "mgr:merge_order", dict(sizes=(2, 2, 2), order="mix", what=w)),
               Case("merge-1123", "mgr:merge_order", dict(sizes=(1, 2, 1, 3), order="mix", what=w))]
    if tier == "thorough":
        cs += [
            Case("graph5-sym", "mgr:graph_state", dict(n=5, order="sym", how="lex", what=w)),
            Case("graph5-rev", "mgr:graph_state", dict(n=5, order="desc", how="rev", what=w)),
            Case("forest7", "mgr:forest_state", dict(n=7, order="mix", what=w)),
            Case("forest5-ops", "mgr:forest_state", dict(n=5, order="mix", what=w, extra=1, kinds=("add", "del", "delid"))),
        ]
        if hist:
            cs += [Case("hist3-k4", "mgr:history_state", dict(n=3, spare=1, k=4, order="mix", what=w, kinds=ALLK)),
                   Case("hist4-k3", "mgr:history_state", dict(n=4, spare=1, k=3, order="mix", what=w, kinds=ALLK)),
                   Case("graph4-op-sym", "mgr:graph_then_each_op", dict(n=4, spare=1, order="sym", how="lex", what=w, kinds=ALLK)),
                   Case("graph3-2ops", "mgr:history_state", dict(n=3, spare=1, k=2, order="sym", what=w, kinds=ALLK, prebuilt=True))]
    return cs


MGR_BOUNDS = {
    "quick": "as one formula each (path merging): every type assignment (contradictory ones included) on 4 and on 5 IDs x every sort order, on 4 IDs followed by any deletion, every history of 3 operations of any kind "
             "on 2-3 IDs x every sort order; path by path: all consistent constraint graphs on 4 IDs with every ID sort order and on 5 IDs with an unsorted insertion order, all constraint "
             "forests on 6 IDs, all joins of pre-built groups (up to 7 IDs, 3 joins), every single operation from every graph on 4 IDs, "
             "all histories of 3 operations on 3(+1) IDs with every sort order and of 5 operations on 2(+1) IDs; histories, and operations after a graph on 4 IDs, also with every query asked between the steps",
    "thorough": "as quick, plus as one formula each: 6 IDs, 5 IDs followed by any deletion, 4 IDs followed by two, histories of 4 operations; path by path: all graphs on 5 IDs with every sort order, forests on 7 IDs, histories of 4 operations on 3(+1) IDs and 3 on 4(+1)",
}


@prop("C01", MGR_BOUNDS, reach=["mixed", "history", "forest", "joined"], assumptions=MGR_ASSUME)
def _c01(tier):
    return mgr_cases(tier, ("inferred",))


@prop("C02", {"quick": "as one formula each (path merging): every sequence of additions on 4 and on 5 IDs, and on 3 IDs followed by two additions, invalid additions or new IDs, x every sort order; path by path: every graph on 4 IDs (unsorted insertion) and on 3 IDs with every sort order: every ordered pair and type, invalid types and IDs; all sequences of 4 additions on 4 IDs",
              "thorough": "as quick, plus as one formula each: 6 IDs; path by path, plus every graph on 4 IDs with every sort order and all sequences of 5 additions on 4 IDs"},
      reach=["conflict"], assumptions=MGR_ASSUME)
def _c02(tier):
    w = ("inferred", "added")
    cs = [merged("graph4", what=w, how="odd"), merged("graph5", n=5, what=w), merged("graph3-bad", n=4, managed=3, how="rev", k=2, kinds=("add", "bad", "addid"), what=w),
          Case("verdict3-sym", "mgr:add_verdicts", dict(n=3, order="sym", how="lex")),
          Case("verdict4", "mgr:add_verdicts", dict(n=4, order="mix", how="odd")),
          seps("mgr:add_verdicts"), wide("wide12", "mgr:add_verdicts"), wide("wide12-star", "mgr:add_verdicts", preset=W_STAR, edges=[(1, 4), (9, 10)]),
          Case("seq4", "mgr:never_inconsistent", dict(n=4, k=4, order="mix")),
          Case("forest6", "mgr:forest_state", dict(n=6, order="mix", what=("inferred", "added"))),
          Case("merge-222", "mgr:merge_order", dict(sizes=(2, 2, 2), order="mix", what=("inferred", "added"))),
          Case("hist3", "mgr:history_state", dict(n=3, spare=1, k=3, order="mix", what=("inferred", "added"), kinds=ALLK + ("addrev",)))]
    if tier == "thorough":
        cs += [merged("graph6", n=6, what=w), merged("graph4-add", how="odd", k=1, kinds=("add",), what=w),
               Case("verdict4-sym", "mgr:add_verdicts", dict(n=4, order="sym", how="lex")),
               Case("seq4-5", "mgr:never_inconsistent", dict(n=4, k=5, order="mix")),
               Case("verdict5", "mgr:add_verdicts", dict(n=5, order="mix", how="lex"))]
    return cs


@prop("C03", MGR_BOUNDS, reach=["mixed", "history"], assumptions=MGR_ASSUME)
def _c03(tier):
    return mgr_cases(tier, ("added",)) + [Case("value3", "mgr:valued_state", dict(n=3, order="sym", how="odd", what=("added",)))]


@prop("C04", {"quick": "as one formula each (path merging): every history of 3 additions, deletions and re-additions of IDs on 2-3 IDs, every graph on 3 IDs followed by two such operations and on 4 IDs followed by the deletion of any ID, x every sort order; path by path: every graph on 3 IDs with every sort order of 4 IDs, every graph on 4 IDs (unsorted insertion); add, delete, re-add, invalid operations; all histories of 3 operations on 3(+1) IDs; histories of 3 (as one formula) and 5 (2 IDs) operations with every query asked between the steps",
              "thorough": "as quick, plus as one formula each: histories of 4 operations, 3 IDs followed by three, 4 by two; path by path, plus every graph on 4 IDs with every sort order and histories of 4 operations"},
      reach=["readded", "history"], assumptions=MGR_ASSUME)
def _c04(tier):
    w = ("ids", "inferred", "added", "comps")
    cs = [merged("hist3", n=3, managed=2, how=None, k=3, kinds=("add", "delid", "addid", "bad"), what=w),
          merged("graph3-ids", n=4, managed=3, k=2, kinds=("delid", "addid", "bad"), what=w),
          merged("graph4-delid", k=1, kinds=("delid",), how="odd", what=w),
          Case("life3-sym", "mgr:id_lifecycle", dict(n=3, order="sym", how="lex")),
          Case("life4", "mgr:id_lifecycle", dict(n=4, order="mix", how="odd")),
          seps("mgr:id_lifecycle"), wide("wide12", "mgr:id_lifecycle"), wide("wide12-full", "mgr:id_lifecycle", preset=W_FULL, edges=[(1, 2)]),
          Case("life5-forest", "mgr:forest_state", dict(n=5, order="mix", what=w, extra=1, kinds=("delid",))),
          Case("hist3-sym", "mgr:history_state", dict(n=3, spare=1, k=3, order="sym", what=w, kinds=ALLK)),
          Case("hist2-long", "mgr:history_state", dict(n=2, spare=1, k=5, order="mix", what=w, kinds=ALLK, _ask=True)),
          merged("hist3-ask", n=3, managed=2, how=None, k=3, kinds=("add", "delid", "addid"), what=w, ask=True)]
    if tier == "thorough":
        cs += [merged("graph3-ids3", n=4, managed=3, k=3, kinds=("delid", "addid", "add"), what=w), merged("hist3-k4", n=3, managed=2, how=None, k=4, what=w),
               merged("graph4-ids", n=5, managed=4, k=2, kinds=("delid", "addid"), what=w),
               Case("life4-sym", "mgr:id_lifecycle", dict(n=4, order="sym", how="lex")),
               Case("hist3-k4", "mgr:history_state", dict(n=3, spare=1, k=4, order="mix", what=w, kinds=ALLK)),
               Case("life5", "mgr:id_lifecycle", dict(n=5, order="desc", how="odd"))]
    return cs


@prop("C05", {"quick": "as one formula each (path merging): every graph on 4 IDs followed by the deletion of any constraint or ID, on 3 IDs followed by three additions or deletions, x every sort order; path by path: every graph on 4 IDs (unsorted insertion; every sort order on 3 IDs), every deletion of a constraint or an ID, compared with the closure of what remains; every deletion followed by every further operation on 3 IDs; forests on 6 IDs with one deletion; the deletions on 4 IDs also with every query asked before",
              "thorough": "as quick, plus as one formula each: 5 IDs with one deletion, 4 IDs with two; path by path, with every graph on 5 IDs, every sort order on 4 IDs, deletions followed by two operations"},
      reach=["op", "history", "forest"], assumptions=MGR_ASSUME)
def _c05(tier):
    w = ("inferred", "added", "comps")
    cs = [merged("graph4-del", k=1, kinds=("del",), how="odd", what=w), merged("graph4-delid", k=1, kinds=("delid",), what=w),
          merged("graph3-ops", n=3, k=3, kinds=("del", "add"), what=w), merged("graph3-ids", n=3, k=2, kinds=("delid", "del"), what=w),
          Case("del3-sym", "mgr:graph_then_each_op", dict(n=3, spare=0, order="sym", how="lex", what=w, kinds=("del", "delrev", "delid"))),
          Case("del4", "mgr:graph_then_each_op", dict(n=4, spare=0, order="mix", how="odd", what=w, kinds=("del", "delrev", "delid"))),
          Case("del4-rev", "mgr:graph_then_each_op", dict(n=4, spare=0, order="asc", how="rev", what=w, kinds=("del", "delrev", "delid"), _ask=True)),
          seps("mgr:graph_then_each_op", spare=0, what=w, kinds=("del", "delrev", "delid")), wide("wide12", "mgr:graph_then_each_op", spare=0, what=w, kinds=("del", "delrev", "delid")), wide("wide12-full", "mgr:graph_then_each_op", preset=W_FULL, edges=[(1, 2)], spare=0, what=w, kinds=("del", "delid")),
          Case("del3-then", "mgr:delete_then", dict(n=3, k=2, order="mix", how="lex", what=w)),
          Case("del4-then", "mgr:delete_then", dict(n=4, k=1, order="mix", how="odd", what=w)),
          Case("hist3", "mgr:history_state", dict(n=3, spare=1, k=4, order="mix", what=w, kinds=("add", "del", "delid"))),
          Case("forest6", "mgr:forest_state", dict(n=6, order="mix", what=w, extra=1, kinds=("del",)))]
    if tier == "thorough":
        cs += [merged("graph5-del", n=5, k=1, kinds=("del",), what=w), merged("graph4-del2", k=2, kinds=("del", "delid"), what=w), merged("graph4-del-add", how="rev", k=2, kinds=("del", "add"), what=w),
               merged("graph5-delid", n=5, k=1, kinds=("delid",), what=w),
               Case("del4-sym", "mgr:graph_then_each_op", dict(n=4, spare=0, order="sym", how="lex", what=w, kinds=("del", "delid"))),
               Case("del5", "mgr:graph_then_each_op", dict(n=5, spare=0, order="mix", how="lex", what=w, kinds=("del", "delid"))),
               Case("del3-then-sym", "mgr:delete_then", dict(n=3, k=2, order="sym", how="lex", what=w)),
               Case("del4-then2", "mgr:delete_then", dict(n=4, k=2, order="mix", how="lex", what=w))]
    return cs


@prop("C06", MGR_BOUNDS, reach=["mixed", "history", "joined"], assumptions=MGR_ASSUME)
def _c06(tier):
    return mgr_cases(tier, ("comps",))


@prop("C07", {"quick": "as one formula each (path merging): every graph on 4 and 5 IDs, on 4 IDs followed by a deletion, every history of 3 operations, x every sort order; path by path: every graph on 1 to 5 IDs (every sort order up to 3), every graph on 4 IDs followed by every operation; the same with every query asked between the steps (3 IDs as one formula, 4 IDs path by path)",
              "thorough": "as quick, plus as one formula each: 6 IDs, 5 IDs followed by an operation; path by path, with every sort order on 4 IDs and every graph on 5 IDs in three insertion orders"},
      reach=["complete", "incomplete"], assumptions=MGR_ASSUME)
def _c07(tier):
    w = ("complete",)
    cs = [merged("graph4", how="odd", what=w), merged("graph5", n=5, what=w), merged("graph4-del", k=1, kinds=("del",), what=w), merged("hist3", n=3, managed=2, how=None, k=3, what=w),
          merged("hist3-ask", n=3, managed=2, how=None, k=3, what=w, ask=True)]
    cs += [Case("n%d" % n, "mgr:completeness", dict(n=n, order="sym", how="lex")) for n in (1, 2, 3)]
    cs += [Case("n4", "mgr:completeness", dict(n=4, order="mix", how="odd")),
           Case("n5", "mgr:completeness", dict(n=5, order="mix", how="odd")),
           Case("n4-op", "mgr:completeness_after", dict(n=4, order="mix", how="lex", _ask=True)),
           seps("mgr:completeness", edges=S_EDGES + [(2, 3), (0, 2), (1, 3)]), wide("wide12-full", "mgr:completeness_after", preset=W_FULL, edges=[(1, 2)]), wide("wide12", "mgr:completeness", edges=W_EDGES + [(10, 11)]),
           Case("n3-op", "mgr:completeness_after", dict(n=3, order="sym", how="rev"))]
    if tier == "thorough":
        cs += [merged("graph6", n=6, what=w), merged("graph4-op", k=1, kinds=("add", "del", "delid"), what=w), merged("graph5-op", n=5, k=1, kinds=("add", "delid"), what=w),
               Case("n4-sym", "mgr:completeness", dict(n=4, order="sym", how="lex")),
               Case("n5-rev", "mgr:completeness", dict(n=5, order="desc", how="rev")),
               Case("n5-lex", "mgr:completeness", dict(n=5, order="asc", how="lex")),
               Case("n5-op", "mgr:completeness_after", dict(n=5, order="mix", how="lex"))]
    return cs


@prop("C08", {"quick": "every graph on 1 to 5 IDs (every sort order up to 3), cliques of 2 to 6 groups with attached IDs; every outcome of the randomised colourings (by number of colours); every graph on 3 IDs (every sort order) and on 4 IDs, asked, changed by every operation and asked again",
              "thorough": "as quick, with every sort order on 4 IDs and cliques on 7 IDs"},
      reach=["chi>2", "merged", "clique"], assumptions=MGR_ASSUME + ["a randomised greedy colouring may return the greedy colouring of any node order"])
def _c08(tier):
    cs = [Case("n%d" % n, "mgr:min_max", dict(n=n, order="sym", how="lex")) for n in (1, 2, 3)]
    cs += [Case("n4", "mgr:min_max", dict(n=4, order="mix", how="odd")), Case("n5", "mgr:min_max", dict(n=5, order="mix", how="odd")),
           seps("mgr:min_max", edges=S_EDGES + [(2, 3)]), wide("wide12", "mgr:min_max"), wide("wide12-star", "mgr:min_max", preset=W_STAR, edges=[(1, 4), (9, 10), (10, 11), (9, 11), (3, 6)]), wide("wide12-full", "mgr:min_max", preset=W_FULL, edges=[(1, 2)]),
           Case("clique6", "mgr:min_max_clique", dict(n=6, order="mix", extra=0)),
           Case("n3-op", "mgr:min_max_after", dict(n=3, order="sym", how="lex", _ask="minmax")), Case("n4-op", "mgr:min_max_after", dict(n=4, order="mix", how="odd", _ask="minmax"))]
    if tier == "thorough":
        cs += [Case("n4-sym", "mgr:min_max", dict(n=4, order="sym", how="lex")), Case("n5-rev", "mgr:min_max", dict(n=5, order="desc", how="rev")),
               Case("clique7", "mgr:min_max_clique", dict(n=7, order="mix", extra=0))]
    return cs


@prop("C09", {"quick": "as one formula each (path merging): every graph on 4 and 5 IDs, on 4 IDs followed by a deletion, on 3 IDs followed by a change of the IDs, x every sort order, every pair and type; path by path: every graph on 3 IDs with every sort order and on 4 IDs (unsorted insertion), every ordered pair and type; every graph on 5 IDs",
              "thorough": "as quick, plus as one formula each: 6 IDs, 5 IDs followed by a deletion; path by path, with every sort order on 4 IDs and two insertion orders on 5 IDs"},
      reach=["conflict", "no conflict"], assumptions=MGR_ASSUME)
def _c09(tier):
    w = ("conflict",)
    cs = [merged("graph4", how="odd", what=w), merged("graph5", n=5, what=w), merged("graph4-del", k=1, kinds=("del",), what=w, ask=True), merged("graph3-ids", n=4, managed=3, k=1, kinds=("delid", "addid"), what=w, ask=True),
          Case("n3-sym", "mgr:conflicts", dict(n=3, order="sym", how="lex")), Case("n4", "mgr:conflicts", dict(n=4, order="mix", how="odd")),
          seps("mgr:conflicts"), wide("wide12", "mgr:conflicts"), wide("wide12-full", "mgr:conflicts", preset=W_FULL, edges=[(1, 2)]),
          Case("n5", "mgr:conflicts", dict(n=5, order="mix", how="lex"))]
    if tier == "thorough":
        cs += [merged("graph6", n=6, what=w), merged("graph5-del", n=5, how="odd", k=1, kinds=("del", "delid"), what=w),
               Case("n4-sym", "mgr:conflicts", dict(n=4, order="sym", how="lex")), Case("n5-rev", "mgr:conflicts", dict(n=5, order="desc", how="rev"))]
    return cs


@prop("C10", {"quick": "as one formula each (path merging): every graph on 4 IDs, on 4 IDs followed by a deletion, on 3 IDs followed by two operations, x every sort order; path by path: every graph on 3 IDs with every sort order and on 4 IDs (unsorted insertion), with and without a deletion, IDs including the empty text, non-ASCII and quotes; a second, smaller state saved over the first file",
              "thorough": "as quick, plus as one formula each: 5 IDs, histories of 3 operations; path by path, with every sort order on 4 IDs and every graph on 5 IDs"},
      reach=["loaded"], assumptions=MGR_ASSUME)
def _c10(tier):
    w = ("ids", "inferred", "added", "comps")
    cs = [merged("graph4", how="odd", what=w, fn="roundtrip"), merged("graph3-ops", n=4, managed=3, k=2, kinds=("del", "delid", "addid"), what=w, fn="roundtrip"),
          merged("graph4-del", k=1, kinds=("del",), what=w, fn="roundtrip"),
          Case("n1", "mgr:json_roundtrip", dict(n=1, order="sym", how="lex")), Case("n3-sym", "mgr:json_roundtrip", dict(n=3, order="sym", how="lex")),
          seps("mgr:json_roundtrip"), wide("wide12", "mgr:json_roundtrip"), wide("wide12-full", "mgr:json_roundtrip", preset=W_FULL, edges=[(1, 2)]),
          Case("n4", "mgr:json_roundtrip", dict(n=4, order="mix", how="odd")), Case("n4-desc", "mgr:json_roundtrip", dict(n=4, order="desc", how="lex", _ask=True))]
    if tier == "thorough":
        cs += [merged("graph5", n=5, what=w, fn="roundtrip"), merged("hist3", n=3, managed=2, how=None, k=3, what=w, fn="roundtrip"),
               Case("n4-sym", "mgr:json_roundtrip", dict(n=4, order="sym", how="lex")), Case("n5", "mgr:json_roundtrip", dict(n=5, order="mix", how="lex"))]
    return cs


GRID = [[0, 0], [1, 0], [4, 0], [1, 2]]
GRID_BIG = [[0, 0], [16777217, 0], [-16777216, 0], [1, 2]]     # differences below the precision of 32-bit numbers
GRID3 = [[0, 0], [1, 0], [4, 0]]


def C(name, fn, params, grid=GRID, **over):
    """A case with the fallback encoding used when the proxies cannot follow the code: unsorted plain IDs, vectors
    taken from a small grid."""
    fb = dict(params)
    if fb.get("order") == "sym":
        fb["order"] = "mix"
    if fb.get("metric"):
        fb["metric"] = False
    if fb.get("points") is None and fn not in ("clus:rename", "misc:frequency"):
        fb.update(vec="grid", grid=grid)
    if fn.startswith("samp:") and "lab" not in fb:
        fb["lab"] = (-1, 1)
    fb.update(over)
    return Case(name, fn, params, fallback=[fb])


# ---- sampling ---------------------------------------------------------------------------------------------------
SAMP_ASSUME = ["random.sample / random.shuffle return an arbitrary selection; equal seeds and draw numbers give equal draws",
               "pairwise_distances(metric='euclidean') returns the Euclidean distances: symmetric, zero on equal vectors"]
FACT = ["random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters"]
CONF = [(c, d) for c in (None, "same_cluster", "different_clusters") for d in (None, "closest_neighbors", "farthest_neighbors")]
RND = ["random", "random_in_same_cluster", ("different_clusters", None)]
DST = ["farthest_in_same_cluster", "closest_in_different_clusters", (None, "closest_neighbors"), (None, "farthest_neighbors"),
       ("same_cluster", "closest_neighbors"), ("different_clusters", "farthest_neighbors")]


@prop("C11", {"quick": "3 IDs: every sort order, constraint graph, labels in -1..1, filter setting, strategy (4 named and 9 configured), number 0..4; 4 IDs: unsorted insertion, every graph, random strategies; 7 IDs with up to 30 pairs requested; the same sampler used twice (3 IDs); distances arbitrary positive reals",
              "thorough": "as quick, with distance strategies and every sort order on 4 IDs"},
      reach=["pairs", "cut", "short"], assumptions=SAMP_ASSUME)
def _c11(tier):
    TF = [(True, True), (True, False), (False, True), (False, False)]
    cs = [C("n3-sym", "samp:eligibility", dict(n=3, order="sym", how="lex", algos=FACT, modes=None, nb_hi=4, perm_prefix=1, flags=TF[::3])),
          C("n3-conf", "samp:eligibility", dict(n=3, order="mix", how="lex", algos=CONF, modes=None, nb_hi=4, perm_prefix=2, flags=TF, nbs=[1, 2, 4])),
          C("n4-rnd", "samp:eligibility", dict(n=4, order="mix", how="odd", algos=RND, modes=None, nb_hi=7, perm_prefix=1, flags=TF, edges=[(0, 1), (2, 1), (2, 3)], nbs=[1, 3, 7])),
          C("n5-all", "samp:eligibility", dict(n=5, order="mix", how="odd", algos=["random"], modes=None, nb_hi=9, perm_prefix=0, flags=TF[:3], nbs=[9],
                                                    edges=[(0, 1), (2, 1), (2, 3), (4, 3), (0, 4), (4, 2)])),
          C("n4-dist", "samp:eligibility", dict(n=4, order="desc", how="lex", algos=["farthest_in_same_cluster", "closest_in_different_clusters"], modes=None, nb_hi=2,
                                                     edges=[(0, 1), (1, 2), (2, 3)], flags=[(True, True)], lab=(0, 1), nbs=[1, 6])),
          C("n3-reuse", "samp:eligibility", dict(n=3, order="mix", how="lex", algos=FACT, modes=None, nb_hi=3, perm_prefix=1, flags=TF[::3], edges=[(0, 1)], reuse=True)),
          C("seps", "samp:eligibility", dict(n=4, order="sep", how="lex", algos=FACT, modes=None, nb_hi=6, perm_prefix=0, flags=TF[:1], nbs=[6], edges=[(1, 2), (3, 0)], lab=(0, 1), _labels=[0, None, 0, 1], vec="line", _fix=[0, 2, 5, None, 7]), grid=W_GRID),
          C("wide12", "samp:eligibility", dict(n=12, order="mix", how="lex", algos=RND + DST[:2], modes=None, nb_hi=70, flags=TF, nbs=[11, 70], perm_prefix=0, vec="line", _fix=W_POS, _preset=W_STAR, edges=[(9, 10)], _labels=W_LAB, lab=(0, 2)), grid=W_GRID),
          C("n7-all", "samp:eligibility", dict(n=7, order="mix", how="lex", algos=RND, modes=None, nb_hi=30, perm_prefix=0, flags=TF[:1], nbs=[20, 30], edges=[(0, 6)], lab=(0, 0)), lab=(0, 0)),
          C("n7-dist", "samp:eligibility", dict(n=7, order="desc", how="lex", algos=DST, modes=None, nb_hi=30, flags=TF[:1], nbs=[20, 30], edges=[(0, 6)], lab=(0, 0), vec="grid", grid=[[0, 0]]))]
    if tier == "thorough":
        cs += [C("n4-sym", "samp:eligibility", dict(n=4, order="sym", how="lex", algos=RND, modes=None, nb_hi=3, perm_prefix=1, flags=[(True, True), (False, False)])),
               C("n5-rnd", "samp:eligibility", dict(n=5, order="mix", how="odd", algos=["random"], modes=None, nb_hi=3, perm_prefix=1, flags=[(True, True)]))]
    return cs


@prop("C12", {"quick": "3 IDs: every sort order, graph, labelling in 0..1, all distance strategies, number 0..3; 4 IDs: unsorted insertion, chain constraints, all distance strategies; distances arbitrary positive reals (ties included), vectors in another key order with an unmanaged entry; points of a line including duplicates; coinciding vectors with arbitrary other distances; the same sampler used twice",
              "thorough": "as quick, with every graph on 4 IDs"},
      reach=["left out", "sorted"], assumptions=SAMP_ASSUME)
def _c12(tier):
    cs = [C("n3-sym", "samp:extremal", dict(n=3, order="sym", how="lex", algos=DST, modes=None, nb_hi=3, flags=[(True, True), (False, False)], lab=(0, 1))),
          C("n4", "samp:extremal", dict(n=4, order="mix", how="lex", algos=DST, modes=None, nb_hi=6, edges=[(0, 1), (2, 1)], flags=[(True, True)], lab=(0, 1))),
          C("n3-reuse", "samp:extremal", dict(n=3, order="mix", how="lex", algos=DST, modes=None, nb_hi=3, flags=[(True, True)], lab=(0, 1), edges=[(0, 1)], reuse=True)),
          C("n3-dup", "samp:extremal", dict(n=3, order="mix", how="lex", algos=DST, modes=None, nb_hi=3, flags=[(True, True)], lab=(0, 1), rep=[0, 1, 0]), grid=GRID_BIG),
          C("seps", "samp:extremal", dict(n=4, order="sep", how="lex", algos=DST[:3], modes=None, nb_hi=6, flags=[(True, True)], nbs=[6], edges=[(1, 2)], lab=(0, 1), _labels=[0, 1, None, 1], vec="line", _fix=[0, 2, 5, None, 7]), grid=W_GRID),
          C("wide12", "samp:extremal", dict(n=12, order="mix", how="lex", algos=DST, modes=None, nb_hi=70, flags=[(True, True)], nbs=[11, 70], vec="line", _fix=W_POS, _preset=W_STAR, edges=[(9, 10)], _labels=W_LAB, lab=(0, 2)), grid=W_GRID),
          C("n3-line", "samp:extremal", dict(n=3, order="mix", how="lex", algos=DST, modes=None, nb_hi=3, vec="line", flags=[(True, True)], lab=(0, 1)), grid=GRID_BIG)]
    if tier == "thorough":
        cs += [C("n4-all", "samp:extremal", dict(n=4, order="desc", how="odd", algos=DST, modes=None, nb_hi=3, flags=[(True, True)], lab=(0, 1))),
               C("n5", "samp:extremal", dict(n=5, order="mix", how="lex", algos=[(None, "closest_neighbors"), (None, "farthest_neighbors")], modes=None, nb_hi=3,
                                                  edges=[(0, 1), (1, 2), (2, 3), (3, 4), (0, 2)], flags=[(True, True)], types=("MUST_LINK",)))]
    return cs


@prop("C13", {"quick": "3 IDs with every sort order, 4 IDs with unsorted insertion: every graph on 3 IDs, labels, strategy, number; every random outcome up to the first two picks; arbitrary generator state before each call; 3 IDs with three assignments of hash values",
              "thorough": "as quick, with every graph on 4 IDs"},
      reach=["drawn"], assumptions=SAMP_ASSUME)
def _c13(tier):
    cs = [C("hash3", "samp:reproducible_hash", dict(n=3, order="mix", how="lex", algos=FACT, nb_hi=3)),
          C("n3", "samp:reproducible", dict(n=3, order="mix", how="lex", algos=FACT, nb_hi=3)),
          C("n4", "samp:reproducible", dict(n=4, order="mix", how="lex", algos=["random", "random_in_same_cluster"], nb_hi=2, edges=[(0, 1), (1, 2)], perm_prefix=2)),
          C("wide12", "samp:reproducible", dict(n=12, order="mix", how="lex", algos=FACT, nb_hi=12, perm_prefix=1, vec="line", _fix=W_POS, _preset=W_CHAIN, edges=[(9, 11)], _labels=W_LAB, lab=(0, 2)), grid=W_GRID)]
    if tier == "thorough":
        cs += [C("n3-sym", "samp:reproducible", dict(n=3, order="sym", how="lex", algos=FACT, nb_hi=3)),
               C("n4-all", "samp:reproducible", dict(n=4, order="mix", how="odd", algos=["random", "random_in_same_cluster"], nb_hi=2, perm_prefix=1))]
    return cs


# ---- clustering -------------------------------------------------------------------------------------------------
PTS = [[0, 0], [1, 0], [1, 4], [3, 1], [-2, 2], [5, 5]]
COINC = [[0], [4], [1], [3], [2]]     # two MUST_LINK pairs with the same centre
MLT, CLT = ["MUST_LINK"], ["CANNOT_LINK"]

A_DIST = "pairwise_distances(metric='euclidean') returns the exact Euclidean distances"
A_FREE = "'free' cases: the distances between different IDs are arbitrary positive reals, zero for the IDs of the 'dup' cases that share a vector (a superset of what vectors can give; counterexamples are realised by integer points with the same order of distances)"
A_LINE = "'line' cases: vectors are arbitrary real numbers (points of a line), equal ones included"
A_INT = "'int' cases: vectors are arbitrary integers (points of a line)"
A_SHUF = "random.shuffle / sample / numpy draws return an arbitrary outcome (the leading picks that are used are all explored); equal seeds and draw numbers give equal outcomes"
A_SPEC = "SpectralClustering.fit_predict returns arbitrary labels below the number of clusters it was given, the same for the same arguments"
A_RBF = "rbf_kernel gives 1 for a vector with itself and otherwise a number strictly between 0 and 1 determined by the two vectors"
A_NOISE = "the degeneracy noise of affinity propagation is zero except in the 'noise' cases, where it is arbitrary"
A_METRIC = "mpckmeans 'metric' cases: vectors are fixed points, the learned metric makes each Mahalanobis distance an arbitrary non-negative real, zero exactly for equal points"
A_HASH = "hash seeds are represented by three assignments of hash values to the IDs (ascending, descending, spread)"
A_FIX = "mpckmeans 'points' cases: fixed points, exact metric, arbitrary random draws"


@prop("C14", {"quick": "vectors: any reals of a line. 3 IDs: every constraint graph, 2-3 clusters, 1-3 iterations, every initial order; 4 IDs: every graph, 2 clusters, 1 iteration; 5 IDs: constraints on 3 pairs; every initial choice of centres",
              "thorough": "as quick, plus 4 IDs with 2-3 clusters, 1-2 iterations, constraints on a cycle; 5 IDs with constraints on 5 pairs; integer points until convergence"},
      reach=["mixed", "more clusters than requested"], assumptions=[A_DIST, A_LINE, A_SHUF])
def _c14(tier):
    f = "clus:kmeans_constraints"
    cs = [C("n3-line", f, dict(n=3, order="mix", nbs=[2, 3], iters=[1, 2, 3], perm_prefix=3)),
          C("seps", f, dict(n=4, order="sep", vec="line", edges=[(1, 2), (3, 0)], _fix=[0, 2, 5, None], nbs=[2], iters=[2], perm_prefix=1), grid=W_GRID),
          C("wide9", f, dict(LINE9, nbs=[3], iters=[8], perm_prefix=2), grid=W_GRID),
          C("wide9-open", f, dict(LINE9, _preset=W_OPEN, nbs=[2, 3], iters=[8], perm_prefix=1), grid=W_GRID),
          C("n4-line", f, dict(n=4, order="mix", nbs=[2], iters=[1], perm_prefix=2), grid=GRID3),
          C("n4-path", f, dict(n=4, order="desc", nbs=[2, 3], iters=[2], perm_prefix=2, edges=[(0, 1), (1, 2)]), grid=GRID3),
          C("n5-line", f, dict(n=5, order="mix", nbs=[2], iters=[1], perm_prefix=2, edges=[(0, 1), (1, 2), (3, 4)]), grid=GRID3, perm_prefix=1)]
    if tier == "thorough":
        cs += [C("n4-cycle", f, dict(n=4, order="mix", nbs=[2, 3], iters=[1, 2], perm_prefix=2, edges=[(0, 1), (1, 2), (2, 3), (0, 3)])),
               C("n5-five", f, dict(n=5, order="desc", nbs=[2], iters=[1], perm_prefix=2, edges=[(0, 1), (1, 2), (3, 4), (0, 4), (2, 3)]), perm_prefix=1, grid=GRID3),
               C("n4-int", f, dict(n=4, order="mix", vec="int", nbs=[2], iters=[6], perm_prefix=2, edges=[(0, 1), (2, 3)]), grid=GRID3)]
    return cs


@prop("C15", {"quick": "4 IDs: every constraint graph, single/complete/ward linkage with arbitrary pairwise distances, average linkage with any points of a line, 2-3 clusters, then recomputed for 2-5 clusters by both rules; 5 IDs: groups and separations on 3 pairs",
              "thorough": "as quick, with 5 IDs: every type on 3 pairs, and 6 IDs in 3 groups"},
      reach=["mixed"], assumptions=[A_DIST, A_FREE, A_LINE])
def _c15(tier):
    f = "clus:hier_constraints"
    cs = [C("n4-free", f, dict(n=4, order="mix", nbs=[2, 3], linkages=["single", "complete", "ward"], vec="free"), grid=GRID3),
          C("n4-line", f, dict(n=4, order="mix", nbs=[2], linkages=["average"], vec="line"), grid=GRID3),
          C("n5-groups", f, dict(n=5, order="desc", nbs=[2], linkages=["single", "complete", "ward"], vec="free", edges=[(0, 1), (2, 3), (1, 4)], types=MLT + CLT), grid=GRID3),
          C("seps", f, dict(n=4, order="sep", vec="line", edges=[(1, 2), (3, 0)], _fix=[0, 2, 5, None], nbs=[2], linkages=["single", "complete", "ward", "average"]), grid=W_GRID),
          C("wide9", f, dict(LINE9, nbs=[3], linkages=["single", "complete", "ward", "average"]), grid=W_GRID)]
    if tier == "thorough":
        cs += [C("n5-free", f, dict(n=5, order="mix", nbs=[2], linkages=["single"], vec="free", edges=[(0, 1), (1, 2), (3, 4)]), grid=GRID3),
               C("n5-ward", f, dict(n=5, order="mix", nbs=[3], linkages=["ward"], vec="free", edges=[(0, 1), (1, 2), (0, 4)]), grid=GRID3),
               C("n6-groups", f, dict(n=6, order="mix", nbs=[2], linkages=["complete"], vec="free", edges=[(0, 1), (2, 3), (4, 5)], types=MLT), grid=[[0], [2]])]
    return cs


@prop("C16", {"quick": "4 IDs: every constraint graph, the four linkages (arbitrary pairwise distances; points of a line for 'average'); 5 IDs in groups of up to 3 with separations; 4 IDs with two coinciding vectors",
              "thorough": "as quick, plus 5 IDs with every type on 2 pairs and 6 IDs in three pairs"},
      reach=["merge", "later merge with a choice", "forced root"], assumptions=[A_DIST, A_FREE, A_LINE])
def _c16(tier):
    f = "clus:hier_tree"
    cs = []
    for li in ("single", "complete", "ward", "average"):
        v = "line" if li == "average" else "free"
        cs += [C("n4-" + li, f, dict(n=4, order="mix", linkage=li, vec=v), grid=GRID3),
               C("n5-groups-" + li, f, dict(n=5, order="mix", linkage=li, vec=v, edges=[(0, 1), (2, 3), (1, 4)], types=MLT + CLT), grid=GRID3)]
    for li in ("single", "complete", "ward"):
        cs.append(C("n4-dup-" + li, f, dict(n=4, order="desc", linkage=li, vec="free", edges=[(0, 1), (0, 2), (2, 3)], rep=[0, 1, 0, 3]), grid=GRID3))
    for li in ("single", "complete", "ward", "average"):
        cs.append(C("seps-" + li, f, dict(n=4, order="sep", vec="line", edges=[(1, 2), (3, 0)], _fix=[0, 2, 5, None], linkage=li), grid=W_GRID))
        cs.append(C("wide9-" + li, f, dict(LINE9, linkage=li), grid=W_GRID))
    cs.append(C("n5-average-pair", f, dict(n=5, order="asc", linkage="average", vec="line", edges=[(0, 1)], types=MLT), grid=GRID3))
    if tier == "thorough":
        for li in ("single", "complete", "ward", "average"):
            v = "line" if li == "average" else "free"
            cs += [C("n5-" + li, f, dict(n=5, order="mix", linkage=li, vec=v, edges=[(0, 1), (1, 2)]), grid=GRID3),
                   C("n6-pairs-" + li, f, dict(n=6, order="desc", linkage=li, vec=v, edges=[(0, 1), (2, 3), (4, 5)], types=MLT), grid=[[0], [2], [5]])]
    return cs


@prop("C17", {"quick": "integer points of a line, run to convergence (fixed points and centroids): 3 IDs with 2-3 clusters and one constraint, 4 IDs with 2 clusters, 5 IDs in ascending positions with 3 clusters, the first far from the others; 5 IDs in ascending positions (multiples of 1/64) with 2 clusters; real points of a line, centroids after 1-2 iterations: 4 IDs, constraints on 2 pairs; every initial choice of centres",
              "thorough": "as quick, plus 4 IDs with 3 clusters and 5 IDs with 2 clusters to convergence, and every graph on 4 IDs after one iteration"},
      reach=["several", "fixed point"], assumptions=[A_DIST, A_LINE, A_INT, A_SHUF])
def _c17(tier):
    f = "clus:kmeans_fixed_point"
    cs = [C("n3", f, dict(n=3, order="mix", nbs=[2, 3], iters=8, tol=1e-4, vec="int", perm_prefix=3, edges=[(0, 1)])),
          C("n4", f, dict(n=4, order="mix", nbs=[2], iters=16, tol=1e-4, vec="int", perm_prefix=2, edges=[(0, 1)])),
          C("n5-far", f, dict(n=5, order="mix", nbs=[3], iters=20, tol=1e-4, vec="int", perm_prefix=3, edges=[], ordered=True, far=True), grid=GRID3),
          C("n5-fine", f, dict(n=5, order="mix", nbs=[2], iters=20, tol=1e-4, vec="int", perm_prefix=2, edges=[], ordered=True, unit=64), grid=GRID3),
          C("wide9", f, dict(LINE9, _preset=None, edges=[], vec="int", nbs=[3], iters=40, tol=1e-4, perm_prefix=1), grid=W_GRID),
          C("wide9-groups", f, dict(LINE9, vec="int", nbs=[4], iters=40, tol=1e-4, perm_prefix=1), grid=W_GRID),
          C("n4-line", f, dict(n=4, order="mix", nbs=[2, 3], iters=2, tol=1e-4, vec="line", perm_prefix=2, edges=[(0, 1), (2, 3)], fixed=False))]
    if tier == "thorough":
        cs += [C("n4-three", f, dict(n=4, order="mix", nbs=[2, 3], iters=16, tol=1e-4, vec="int", perm_prefix=3, edges=[])),
               C("n5", f, dict(n=5, order="mix", nbs=[2], iters=20, tol=1e-4, vec="int", perm_prefix=2, edges=[])),
               C("n4-all", f, dict(n=4, order="mix", nbs=[2, 3], iters=1, tol=1e-4, vec="line", perm_prefix=2, fixed=False), grid=GRID3)]
    return cs


@prop("C18", {"quick": "renumbering: 4 IDs with every sort order and 6 IDs unsorted, labels any integers; results of kmeans, hierarchical, spectral and affinity propagation on 3 IDs (spectral: 4) with every sort order, mpckmeans on 3 unsorted IDs",
              "thorough": "as quick, plus renumbering on 5 IDs with every sort order and hierarchical on 4 IDs with every sort order"},
      reach=["several"], assumptions=[A_DIST, A_LINE, A_FREE, A_SHUF, A_SPEC, A_RBF, A_NOISE, A_METRIC])
def _c18(tier):
    f = "clus:labels_of"
    cs = [C("rename4", "clus:rename", dict(n=4, order="sym", lab=(None, None)), lab=(-1, 2)),
          C("rename3-values", "clus:rename", dict(n=3, order="sym", lab=(-2, 3))),
          C("rename6", "clus:rename", dict(n=6, order="mix", lab=(None, None)), lab=(0, 2)),
          C("rename14", "clus:rename", dict(n=14, order="mix", lab=(None, None), _labels=[11, 3, 7, 11, None, 10, 2, 25, -1, 8, 3, None, 0, 6]), lab=(-1, 12)),
          C("wide-kmeans", f, dict(LINE9, algo="kmeans", nbs=[3], opts=dict(max_iteration=8), perm_prefix=1), grid=W_GRID),
          C("wide-hier", f, dict(LINE9, algo="hierarchical", nbs=[4]), grid=W_GRID),
          C("wide-spectral", f, dict(LINE9, algo="spectral", nbs=[2]), grid=W_GRID),
          C("kmeans", f, dict(algo="kmeans", n=3, order="sym", nbs=[2, 3], opts=dict(max_iteration=2), edges=[(0, 1)], perm_prefix=3)),
          C("hier", f, dict(algo="hierarchical", n=3, order="sym", nbs=[2, 3], vec="free")),
          C("spectral", f, dict(algo="spectral", n=4, order="sym", nbs=[2, 3], edges=[(0, 1)], vec="free")),
          C("affinity", f, dict(algo="affinity_propagation", n=3, order="sym", nbs=[None], edges=[(0, 1)], vec="free", opts=dict(max_iteration=2, convergence_iteration=1))),
          C("affinity-soft", f, dict(algo="affinity_propagation", n=3, order="sym", nbs=[None], edges=[(0, 1)], vec="line", _fix=[0, None, 5], opts=dict(max_iteration=2, convergence_iteration=1, absolute_must_links=False))),
          C("mpckmeans", f, dict(algo="mpckmeans", n=3, order="mix", nbs=[2], edges=[(0, 1)], points=PTS, metric=True, opts=dict(max_iteration=1)))]
    if tier == "thorough":
        cs += [C("rename5", "clus:rename", dict(n=5, order="sym", lab=(None, None)), lab=(0, 2)),
               C("hier4", f, dict(algo="hierarchical", n=4, order="sym", nbs=[2], edges=[(0, 1)], vec="free"), grid=GRID3),
               C("kmeans4", f, dict(algo="kmeans", n=4, order="sym", nbs=[2], opts=dict(max_iteration=1), edges=[(0, 1)], perm_prefix=2), grid=GRID3)]
    return cs


@prop("C19", {"quick": "3 IDs: every sort order, constraint graph, 2-5 clusters; 4 IDs: every graph, 2-3 clusters; an unmanaged entry and another key order in the vectors; arbitrary similarities and solver answers; two coinciding vectors on 3 IDs",
              "thorough": "as quick, plus every graph on 5 IDs and every sort order on 4 IDs"},
      reach=["must", "cannot"], assumptions=[A_SPEC, A_RBF, A_FREE])
def _c19(tier):
    f = "clus:spectral_alignment"
    cs = [C("n3", f, dict(n=3, order="sym", nbs=[2, 3, 5], vec="free", comps=[None, 2])),
          C("n4", f, dict(n=4, order="mix", nbs=[2, 3], vec="free", comps=[None]), grid=GRID3),
          C("wide9", f, dict(LINE9, nbs=[2], comps=[None]), grid=W_GRID),
          C("n3-dup", f, dict(n=3, order="mix", nbs=[2], vec="free", comps=[None], rep=[0, 1, 0]))]
    if tier == "thorough":
        cs += [C("n5", f, dict(n=5, order="desc", nbs=[2], vec="free", comps=[None]), grid=[[0, 0], [1, 2]]),
               C("n4-sym", f, dict(n=4, order="sym", nbs=[2], vec="free", comps=[None]), grid=GRID3)]
    return cs


@prop("C20", {"quick": "arbitrary pairwise distances. 3 IDs: every constraint graph, 1-3 iterations; 4 IDs: two MUST_LINK pairs or one, 2 iterations; equal distances included; coinciding vectors: 3 IDs, 4 IDs, 6 IDs with a group of four",
              "thorough": "as quick, plus 4 IDs with every MUST_LINK pattern on 3 pairs, and 5 IDs in two groups"},
      reach=["groups"], assumptions=[A_DIST, A_FREE, A_NOISE])
def _c20(tier):
    f = "clus:affinity_must_link"
    cs = [C("n3", f, dict(n=3, order="mix", iters=3, conv=1, vec="free")),
          C("n3-conv2", f, dict(n=3, order="desc", iters=4, conv=2, vec="free")),
          C("n4", f, dict(n=4, order="mix", iters=2, conv=1, vec="free", edges=[(0, 2), (1, 3)], types=MLT), grid=GRID3),
          C("n4-chain", f, dict(n=4, order="mix", iters=2, conv=1, vec="free", edges=[(3, 0), (1, 3)], types=MLT), grid=GRID3),
          C("n3-dup", f, dict(n=3, order="mix", iters=2, conv=1, vec="free", rep=[0, 1, 0])),
          C("n4-dup", f, dict(n=4, order="mix", iters=2, conv=1, vec="free", edges=[(0, 3), (1, 2)], types=MLT, rep=[0, 1, 0, 3]), grid=GRID3),
          C("wide9", f, dict(LINE9, iters=3, conv=1), grid=W_GRID),
          C("long6", f, dict(n=6, order="mix", iters=8, conv=3, vec="line", edges=[(0, 5), (1, 3)], _preset=[(3, 5, _ML)], _fix=[0, 7, 2, None, 11, 5]), grid=W_GRID),
          C("n6-group4", f, dict(n=6, order="mix", iters=2, conv=1, vec="free", edges=[(0, 2), (2, 4), (4, 5)], types=MLT, rep=[0, 1, 0, 3, 0, 0]), grid=GRID3)]
    if tier == "thorough":
        cs += [C("n4-some", f, dict(n=4, order="mix", iters=2, conv=1, vec="free", edges=[(0, 2), (1, 3)], types=[None] + MLT), grid=GRID3),
               C("n4-any", f, dict(n=4, order="mix", iters=1, conv=1, vec="free", edges=[(0, 2), (1, 3), (0, 1)], types=[None] + MLT), grid=GRID3),
               C("n5-groups", f, dict(n=5, order="mix", iters=1, conv=1, vec="free", edges=[(0, 2), (1, 3), (3, 4)], types=MLT), grid=[[0, 0], [1, 0], [3, 0]])]
    return cs


@prop("C21", {"quick": "3 fixed points with an arbitrary learned metric, every constraint graph, 2-3 clusters; 3 points and an unmanaged one in a reversed dictionary; 5 points whose groups have coinciding centres (exact metric, every random draw of the first pick); pairwise different reals of a line, 3 IDs, one constraint",
              "thorough": "as quick, with two iterations under an arbitrary metric and every permutation of 5 points"},
      reach=["done"], assumptions=[A_METRIC, A_FIX, A_LINE, A_SHUF])
def _c21(tier):
    f = "clus:mpck_counts"
    cs = [C("n3-metric", f, dict(n=3, order="mix", nbs=[2, 3], iters=[1], ws=[1.0], points=PTS, metric=True)),
          C("n3-extra", f, dict(n=3, order="desc", nbs=[2], iters=[1], ws=[1.0, 0.0], points=PTS[1:], metric=True, edges=[(0, 2)], extra=1)),
          C("n5-coincide", f, dict(n=5, order="mix", nbs=[2, 3], iters=[1, 3], ws=[1.0], points=COINC, edges=[(0, 1), (2, 3)], perm_prefix=1)),
          C("n3-line", f, dict(n=3, order="mix", nbs=[2], iters=[1], ws=[1.0], vec="line", edges=[(0, 1)]))]
    if tier == "thorough":
        cs += [C("n5-coincide-all", f, dict(n=5, order="mix", nbs=[2], iters=[2], ws=[1.0], points=COINC, edges=[(0, 1), (2, 3)], types=MLT)),
               C("n3-metric2", f, dict(n=3, order="mix", nbs=[2, 3], iters=[2], ws=[1.0], points=PTS, metric=True, edges=[(0, 1)])),
               C("n4-metric", f, dict(n=4, order="mix", nbs=[3], iters=[1], ws=[1.0], points=PTS, metric=True, edges=[(0, 1)], extra=1))]
    return cs


@prop("C22", {"quick": "arbitrary pairwise distances and radius. 3 IDs: every graph, minimum sizes 1-3; 4 IDs: constraints on a path, minimum sizes 1-4; 4 IDs with two coinciding vectors",
              "thorough": "as quick, plus every graph on 4 IDs and 5 IDs with constraints on 2 pairs"},
      reach=["cannot", "isolated", "noise", "several"], assumptions=[A_DIST, A_FREE])
def _c22(tier):
    f = "clus:dbscan"
    E = dict(epss=[1, 1.5, 3, 5])
    cs = [C("n3", f, dict(n=3, order="mix", mins=[1, 2, 3]), **E),
          C("n4", f, dict(n=4, order="mix", mins=[1, 2, 3, 4], edges=[(0, 1), (1, 2), (2, 3)]), **E),
          C("n4-star", f, dict(n=4, order="desc", mins=[2], edges=[(0, 1), (0, 2), (3, 0)]), **E),
          C("seps", f, dict(n=4, order="sep", vec="line", edges=[(1, 2), (3, 0)], _fix=[0, 2, 5, None], mins=[2]), grid=W_GRID, epss=[2, 3, 5]),
          C("wide9", f, dict(LINE9, mins=[2, 3]), grid=W_GRID, epss=[2, 3, 5]),
          C("n4-dup", f, dict(n=4, order="mix", mins=[1, 2, 3], edges=[(0, 1), (0, 2), (2, 3)], rep=[0, 1, 0, 3]), **E)]
    if tier == "thorough":
        cs += [C("n4-all", f, dict(n=4, order="mix", mins=[2]), **E),
               C("n5", f, dict(n=5, order="mix", mins=[2], edges=[(0, 1), (2, 3)]), **E)]
    return cs


PTS6 = [[0, 0], [4, 1], [1, 3], [6, 5], [2, 7], [9, 2]]


def each_algo(fn, tier, order="mix", e3=((0, 1), (1, 2)), noise=False, skip=(), mp=None, big=True, w9=None, **more):
    """One case per algorithm with settings small enough to explore completely."""
    E = [list(e) for e in e3]
    th = tier == "thorough" or big
    W9 = dict(LINE9, order=order, **more)
    W9.update(w9 or {})
    AP = dict(max_iteration=2, convergence_iteration=1)
    cs = [C("kmeans", fn, dict(algo="kmeans", n=3, order=order, nb=2, opts=dict(max_iteration=2), vec="line", edges=E, perm_prefix=2, **more)),
          C("hier-ward", fn, dict(algo="hierarchical", n=3, order=order, nb=2, vec="free", edges=E, **more)),
          C("hier-average", fn, dict(algo="hierarchical", n=3, order=order, nb=2, vec="line", edges=E, opts=dict(linkage="average"), **more)),
          C("spectral", fn, dict(algo="spectral", n=3, order=order, nb=2, vec="free", edges=E, **more)),
          C("dbscan", fn, dict(algo="dbscan", n=4 if th else 3, order=order, opts=dict(eps=2.0, min_samples=2), vec="free", thresholds=dict(eps=2.0), edges=E, **more)),
          C("affinity", fn, dict(algo="affinity_propagation", n=3, order=order, opts=AP, vec="free", edges=E, **more), opts=dict(max_iteration=20, convergence_iteration=2)),
          C("mpckmeans", fn, dict(algo="mpckmeans", n=3, order=order, nb=2, opts=dict(max_iteration=1), points=PTS, metric=True, edges=E[:1], **dict(more, **(mp or {}))))]
    for a, o in (("hierarchical", {}), ("spectral", {}), ("dbscan", dict(eps=2.0, min_samples=2)), ("affinity_propagation", AP)):
        th_ = dict(thresholds=dict(eps=2.0)) if a == "dbscan" else {}
        cs.append(C("dup-" + a, fn, dict(algo=a, n=3, order=order, nb=2 if a in ("hierarchical", "spectral") else None, opts=o, vec="free", edges=[(0, 2)], rep=[0, 1, 0], **th_, **more)))
    cs += [C("wide-kmeans", fn, dict(W9, algo="kmeans", nb=3, opts=dict(max_iteration=8), perm_prefix=1), grid=W_GRID),
           C("wide-hier", fn, dict(W9, algo="hierarchical", nb=3), grid=W_GRID),
           C("wide-spectral", fn, dict(W9, algo="spectral", nb=2), grid=W_GRID),
           C("wide-dbscan", fn, dict(W9, algo="dbscan", opts=dict(eps=3.0, min_samples=2)), grid=W_GRID),
           C("wide-affinity", fn, dict(W9, algo="affinity_propagation", opts=dict(max_iteration=2, convergence_iteration=1)), grid=W_GRID)]
    M = dict(more, **(mp or {}))
    cs += [C("affinity-long", fn, dict(dict(algo="affinity_propagation", n=5, order=order, opts=dict(max_iteration=8, convergence_iteration=3), vec="line", edges=[(0, 1)], _fix=[0, 7, 2, None, 11, 5], **more), **(w9 or {})), grid=W_GRID),
           C("mpckmeans-run", fn, dict(algo="mpckmeans", n=5, order=order, nb=2, opts=dict(max_iteration=3), points=PTS6, edges=[(0, 1), (3, 4)], perm_prefix=1, **M))]
    cs += [C("affinity-soft", fn, dict(algo="affinity_propagation", n=3, order=order, opts=dict(AP, absolute_must_links=False), vec="line", edges=[(0, 1), (1, 2)], _fix=[0, None, 5, 2], **more), opts=dict(max_iteration=20, convergence_iteration=2, absolute_must_links=False)),
           C("hier-complete", fn, dict(algo="hierarchical", n=4, order=order, nb=2, vec="line", edges=[(0, 1)], _fix=[0, None, 5, 2, 9], opts=dict(linkage="complete"), **more), grid=GRID3)]
    if noise:
        cs.append(C("affinity-noise", fn, dict(algo="affinity_propagation", n=3, order=order, opts=dict(AP, max_iteration=1), vec="free", edges=[(0, 1)], types=MLT, noise=True, **more), opts=dict(max_iteration=20, convergence_iteration=2), noise=False))
    if th:
        cs += [C("kmeans4", fn, dict(algo="kmeans", n=4, order=order, nb=2, opts=dict(max_iteration=1), vec="line", edges=[(0, 1), (2, 3)], perm_prefix=2, **more), grid=GRID3),
               C("hier-single4", fn, dict(algo="hierarchical", n=4, order=order, nb=2, vec="free", edges=[(0, 1)], opts=dict(linkage="single"), **more), grid=GRID3),
               C("spectral4", fn, dict(algo="spectral", n=4, order=order, nb=3, vec="free", edges=[(0, 1), (1, 2), (2, 3)], **more), grid=GRID3)]
    return [c for c in cs if c.name not in skip]


EACH = ["kmeans", "hierarchical", "spectral", "dbscan", "affinity_propagation", "mpckmeans"]
EACH_A = [A_DIST, A_LINE, A_FREE, A_SHUF, A_SPEC, A_RBF, A_NOISE, A_METRIC]
EACH_Q = ("each of the six algorithms on 3 IDs: types on 2 pairs (mpckmeans, reuse: 1 pair), 2 clusters, up to 2 iterations (mpckmeans: 1); points of a line for kmeans and "
          "hierarchical/average, arbitrary distances or similarities for hierarchical/ward, spectral, dbscan (radius 2) and affinity propagation, arbitrary metric on fixed points for mpckmeans; two coinciding vectors for hierarchical, spectral, dbscan and affinity propagation")
EACH_T = "as quick, plus 4 IDs for kmeans, hierarchical/single, spectral and dbscan"


@prop("C23", {"quick": EACH_Q + "; affinity propagation with arbitrary degeneracy noise on 3 IDs in 2 groups (1 iteration); arbitrary generator states before each run; three assignments of hash values to the IDs", "thorough": EACH_T}, reach=EACH, assumptions=EACH_A + [A_HASH])
def _c23(tier):
    cs = each_algo("clus:reproducible", tier, noise=True)
    for c in each_algo("clus:reproducible_hash", tier, big=False, w9=dict(types=CLT)):
        c.name = "hash-" + c.name
        cs.append(c)
    return cs


@prop("C24", {"quick": EACH_Q + "; two runs in a row, unmanaged entry in the vectors", "thorough": EACH_T}, reach=EACH, assumptions=EACH_A)
def _c24(tier):
    return each_algo("clus:inputs_untouched", tier, extra=1)


@prop("C25", {"quick": EACH_Q + "; first input: overlapping but different IDs, other vectors, any type on one pair (mpckmeans: separated); also the same IDs and vectors with other constraints", "thorough": EACH_T}, reach=EACH, assumptions=EACH_A)
def _c25(tier):
    cs = each_algo("clus:reuse", tier, e3=((0, 1),), mp=dict(first=dict(types=CLT)), big=False, w9=dict(types=CLT, first=dict(types=CLT)), skip=("wide-spectral", "wide-affinity"))
    for c in cs:
        if c.name == "mpckmeans-run":     # three IDs kept apart in two clusters: a violated constraint
            c.params["first"] = dict(edges=[(0, 1), (1, 2), (0, 2)], types=CLT)
    for c in each_algo("clus:reuse", tier, e3=((0, 1),), big=False, first=dict(same=True), mp=dict(types=MLT, first=dict(same=True, late=CLT)), w9=dict(types=CLT, first=dict(same=True, late=CLT)), skip=("wide-spectral", "wide-affinity")):
        c.name = "same-" + c.name
        cs.append(c)
    return cs


@prop("C31", {"quick": EACH_Q + "; three other key orders, with and without an unmanaged entry; distance-based sampling on 3 IDs with a reversed dictionary and an unmanaged entry", "thorough": EACH_T}, reach=EACH + ["sorted"], assumptions=EACH_A)
def _c31(tier):
    return each_algo("clus:dict_order", tier, w9=dict(types=CLT), skip=("wide-affinity",)) + [
        C("sampling", "samp:extremal", dict(n=3, order="mix", how="lex", algos=DST, modes=None, nb_hi=3, flags=[(True, True)], lab=(0, 1)), grid=GRID3)]


@prop("C32", {"quick": "3 IDs: every graph, kmeans with 2, 3 and 5 clusters, 2 iterations, every initial order; 4 IDs: hierarchical with the four linkages, 2-6 clusters, types on 2 pairs (average: 1), coinciding vectors included",
              "thorough": "as quick, plus kmeans on 4 IDs and hierarchical on 5 IDs without constraints"},
      reach=["kmeans", "hierarchical", "exact"], assumptions=[A_DIST, A_LINE, A_FREE, A_SHUF])
def _c32(tier):
    f = "clus:counts"
    cs = [C("kmeans3", f, dict(algo="kmeans", n=3, order="mix", nbs=[2, 3, 5], opts=dict(max_iteration=2), vec="line", perm_prefix=3)),
          C("hier4", f, dict(algo="hierarchical", n=4, order="mix", nbs=[2, 3, 4, 6], opts=dict(linkage=["ward", "single", "complete"]), vec="free", edges=[(0, 1), (2, 3)]), grid=GRID3),
          C("hier4-dup", f, dict(algo="hierarchical", n=4, order="mix", nbs=[2, 3, 4, 6], opts=dict(linkage=["ward", "single", "complete"]), vec="free", edges=[(1, 2)], rep=[0, 1, 0, 3]), grid=GRID3),
          C("wide-kmeans", f, dict(LINE9, algo="kmeans", nbs=[4, 8], opts=dict(max_iteration=8), perm_prefix=1), grid=W_GRID),
          C("wide-hier", f, dict(LINE9, algo="hierarchical", nbs=[4, 8], opts=dict(linkage=["ward", "single", "complete", "average"])), grid=W_GRID),
          C("hier4-average", f, dict(algo="hierarchical", n=4, order="mix", nbs=[2, 3, 4], opts=dict(linkage=["average"]), vec="line", edges=[(0, 1)]), grid=GRID3)]
    if tier == "thorough":
        cs += [C("kmeans4", f, dict(algo="kmeans", n=4, order="mix", nbs=[2, 3, 5], opts=dict(max_iteration=1), vec="line", perm_prefix=3, edges=[(0, 1), (1, 2)]), grid=GRID3),
               C("hier5-average", f, dict(algo="hierarchical", n=5, order="mix", nbs=[2, 3, 4], opts=dict(linkage=["average"]), vec="line", edges=[]), grid=GRID3),
               C("hier5", f, dict(algo="hierarchical", n=5, order="mix", nbs=[3], opts=dict(linkage=["ward"]), vec="free", edges=[]), grid=GRID3)]
    return cs


# ---- parameters, utilities, whole loop ----------------------------------------------------------------------------
@prop("C26", {"quick": "every integer (iteration limits, convergence, minimum sizes) and real (tolerance, weight, radius) constructor value; numbers of clusters in -3..7, components in -4..9, requested numbers in -3..5; the listed names, wrong names and arguments of the wrong kind",
              "thorough": "as quick"}, reach=["accepted", "refused"],
      assumptions=["parameters are integers or reals as documented, or values of a wrong kind picked from a list", A_SHUF, A_SPEC])
def _c26(tier):
    algos = ["kmeans", "hierarchical", "spectral", "mpckmeans", "affinity_propagation", "dbscan"]
    return ([Case("ctor-" + a, "misc:constructor", dict(algo=a)) for a in algos]
            + [Case("call-" + a, "misc:call_checks", dict(algo=a, perm_prefix=1)) for a in algos]
            + [Case("sampling", "misc:sampling_params", {}), Case("sampling-call", "misc:sampling_call", dict(perm_prefix=1)), Case("factories", "misc:factories", {})])


@prop("C27", {"quick": "up to 5 IDs, labels any integers (compared, not valued); up to 3 IDs with every label value in -3..6, 7 IDs with labels in 0..2, 11 IDs with labels in -1..0", "thorough": "as quick, up to 6 IDs, and 4 IDs with labels in -3..3"},
      reach=["several", "empty"], assumptions=["labels are integers"])
def _c27(tier):
    f = "misc:frequency"
    cs = [C("n%d" % n, f, dict(n=n, lab=(None, None)), lab=(-1, 2)) for n in ((0, 1, 2, 3, 4, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6))]
    cs += [Case("n3-values", f, dict(n=3, lab=(-3, 6))), Case("n7-three", f, dict(n=7, lab=(0, 2))), Case("n11-two", f, dict(n=11, lab=(-1, 0)))]
    if tier == "thorough":
        cs += [Case("n4-values", f, dict(n=4, lab=(-3, 3)))]
    return cs


@prop("C28", {"quick": "texts of 1 key with 2 tokens, 2 and 3 keys with 1 token each, also after calls with another model, other options and other texts; every combination of options and of the token attributes, parse depth 0..3", "thorough": "as quick, plus 1 key with 3 tokens and 2 keys with 2 tokens"},
      reach=["kept", "dropped", "refused"],
      assumptions=["the language model is a stand-in: it splits the text it is given at white space and attaches arbitrary attributes (white space, punctuation, quote, stop word, depth, lemma) to each token"])
def _c28(tier):
    cs = [Case("k1t2", "misc:preprocessing", dict(nkeys=1, ntok=2)), Case("k2t1", "misc:preprocessing", dict(nkeys=2, ntok=1)), Case("k3t1", "misc:preprocessing", dict(nkeys=3, ntok=1)),
          Case("again", "misc:preprocessing", dict(nkeys=2, ntok=1, _earlier=True)),
          Case("wide14", "misc:preprocessing", dict(nkeys=2, ntok=1, fixed=12)), Case("chars2", "misc:preprocessing_chars", dict(nchar=2)),
          Case("missing", "misc:preprocessing_missing", {})]
    if tier == "thorough":
        cs += [Case("chars3", "misc:preprocessing_chars", dict(nchar=3)), Case("k1t3", "misc:preprocessing", dict(nkeys=1, ntok=3)), Case("k2t2", "misc:preprocessing", dict(nkeys=2, ntok=2))]
    return cs


@prop("C29", {"quick": "3 IDs with texts chosen in every way from a corpus of 8 (an empty text, texts differing in case or blanks only), for TF-IDF and for a language-model stand-in, after calls with other texts and another model", "thorough": "as quick, 4 IDs"},
      reach=["tfidf", "spacy", "refused"],
      assumptions=["TF-IDF itself (scikit-learn) and the language model are trusted: the claim is the alignment of IDs, texts and rows", "text contents are picked from a fixed corpus by a solver variable"])
def _c29(tier):
    W_TEXTS = [3, 0, None, 1, 2, 4, 0, 3, None, 5, 1, 2]
    n = 3 if tier == "quick" else 4
    return [Case("tfidf", "misc:vectorization", dict(n=n, which="tfidf", _earlier=True)), Case("spacy", "misc:vectorization", dict(n=n, which="spacy", _earlier=True)),
            Case("wide12-tfidf", "misc:vectorization", dict(n=12, which="tfidf", _texts=W_TEXTS)), Case("wide12-spacy", "misc:vectorization", dict(n=12, which="spacy", _texts=W_TEXTS)),
            Case("missing", "misc:preprocessing_missing", {})]


@prop("C30", {"quick": "3 IDs: every ground truth, every sequence of proposed pairs, kmeans and hierarchical, 2-3 clusters, points of a line; 4 IDs: hierarchical, the first proposal of each round arbitrary", "thorough": "as quick, plus kmeans on 4 IDs"},
      reach=["kmeans", "hierarchical", "saved by inference"], assumptions=[A_DIST, A_LINE, A_SHUF])
def _c30(tier):
    f = "misc:annotate"
    cs = [C("n3", f, dict(n=3, order="mix", algos=["kmeans", "hierarchical"], nbs=[2, 3], perm_prefix=3)),
          C("n4", f, dict(n=4, order="mix", algos=["hierarchical"], nbs=[2], perm_prefix=1), grid=GRID3),
          C("wide9", f, dict(n=9, order="mix", algos=["kmeans", "hierarchical"], nbs=[3], vec="line", perm_prefix=0, _fix=W_FIX, _truth=[0, 1, 0, None, 2, 1, None, 0, 2]), grid=W_GRID),
          C("batch3", f, dict(n=4, order="mix", algos=["kmeans"], nbs=[2], vec="line", perm_prefix=0, batch=6, _fix=[0, 3, None, 8]), grid=W_GRID)]
    if tier == "thorough":
        cs += [C("n4-kmeans", f, dict(n=4, order="desc", algos=["kmeans"], nbs=[2, 3], perm_prefix=1), grid=GRID3)]
    return cs


@prop("C33", {"quick": "every graph on 3 IDs with every sort order and on 4 IDs (unsorted insertion); the list given at construction and every returned list reversed, extended and shortened; another manager built from the answers; one further operation",
              "thorough": "as quick, with every sort order on 4 IDs and every graph on 5 IDs"},
      reach=["constraints", "owned"], assumptions=MGR_ASSUME)
def _c33(tier):
    f = "mgr:ownership"
    cs = [Case("n1", f, dict(n=1, order="mix", how="lex")), Case("n2", f, dict(n=2, order="sym", how="lex")), Case("n3", f, dict(n=3, order="sym", how="lex")),
          Case("n4", f, dict(n=4, order="mix", how="odd")), wide("wide12", f), wide("wide12-full", f, preset=W_FULL, edges=[(1, 2)])]
    if tier == "thorough":
        cs += [Case("n4-sym", f, dict(n=4, order="sym", how="rev")), Case("n5", f, dict(n=5, order="desc", how="lex"))]
    return cs


@prop("C34", {"quick": EACH_Q + "; K-means also with 6 iterations; one run with messages and one without, arbitrary generator states before each", "thorough": EACH_T}, reach=EACH, assumptions=EACH_A)
def _c34(tier):
    f = "clus:verbose_neutral"
    return each_algo(f, tier, e3=((0, 1), (1, 2))) + [
        C("kmeans-long", f, dict(algo="kmeans", n=3, order="mix", nb=2, opts=dict(max_iteration=6, tolerance=0.0), vec="int", edges=[(0, 1)], perm_prefix=2)),
        C("kmeans-open", f, dict(algo="kmeans", n=4, order="mix", nb=2, opts=dict(max_iteration=1), vec="line", edges=[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], types=CLT, perm_prefix=1), grid=GRID3),
        C("kmeans-one", f, dict(algo="kmeans", n=1, order="mix", nb=2, opts=dict(max_iteration=6), vec="line", edges=[], perm_prefix=1))]


@prop("C35", {"quick": "4 IDs: every constraint graph, single/complete/ward linkage with arbitrary pairwise distances, average linkage with any points of a line and types on 2 pairs, every cut from 1 to 5 by both rules, clustering into 2 to 4; 5 IDs in 3 or 4 groups (a group of three included); two coinciding vectors",
              "thorough": "as quick, plus average linkage with every graph on 4 IDs and 6 IDs in 3 groups"},
      reach=["split", "stopped"], assumptions=[A_DIST, A_FREE, A_LINE])
def _c35(tier):
    f = "clus:hier_cuts"
    cs = [C("n4", f, dict(n=4, order="mix", linkages=["single", "complete", "ward"], nbs=[2, 4], vec="free"), grid=GRID3),
          C("n4-average", f, dict(n=4, order="desc", linkages=["average"], nbs=[3], vec="line", edges=[(0, 1), (2, 3)]), grid=GRID3),
          C("n5", f, dict(n=5, order="mix", linkages=["complete"], nbs=[2], vec="free", edges=[(0, 2)], types=["MUST_LINK"]), grid=GRID3),
          C("n5-groups", f, dict(n=5, order="desc", linkages=["single", "ward"], nbs=[2], vec="free", edges=[(0, 2), (1, 3)], types=["MUST_LINK"]), grid=GRID3),
          C("n5-big", f, dict(n=5, order="mix", linkages=["single", "complete"], nbs=[3], vec="free", edges=[(0, 2), (2, 4)], types=["MUST_LINK"]), grid=GRID3),
          C("wide9", f, dict(LINE9, linkages=["single", "complete", "average", "ward"], nbs=[3]), grid=W_GRID),
          C("n4-dup", f, dict(n=4, order="mix", linkages=["complete", "ward"], nbs=[2], vec="free", edges=[(0, 1), (2, 3)], rep=[0, 1, 0, 3]), grid=GRID3)]
    if tier == "thorough":
        cs += [C("n4-average-all", f, dict(n=4, order="mix", linkages=["average"], nbs=[2], vec="line"), grid=GRID3),
               C("n6-groups", f, dict(n=6, order="asc", linkages=["ward", "complete"], nbs=[2], vec="free", edges=[(0, 1), (2, 3), (4, 5)], types=MLT), grid=[[0], [2], [5]])]
    return cs


# ---- what the 'wide' cases add to the stated bounds ----------------------------------------------------------------
_WM = "12 IDs in fixed structures (chain of groups, one group separated from many, three groups of four) with arbitrary types on 1-5 further pairs"
_WL = "9 IDs at fixed points of a line except one at an arbitrary point, with fixed constraints on 3 pairs and an arbitrary type on one"
WIDE_TEXT = {p: _WM for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C33")}
WIDE_TEXT.update({p: _WL for p in ("C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24", "C25", "C31", "C32", "C34", "C35")})
WIDE_TEXT.update({
    "C11": "12 IDs, all fixed but one coordinate, one label and one constraint, 11 and 70 pairs requested",
    "C12": "12 IDs, all fixed but one coordinate, one label and one constraint, 11 and 70 pairs requested",
    "C13": "12 IDs, all fixed but one coordinate, one label and one constraint, up to 12 pairs requested",
    "C28": "14 keys of which 2 have arbitrary tokens; one text of 2 arbitrary characters of an alphabet of 50 (the listed punctuation, accents, white space)",
    "C29": "12 IDs of which 2 have arbitrary texts",
    "C30": "9 IDs with 2 arbitrary groups and one arbitrary coordinate; all pairs of 4 IDs asked at once",
})
for _p, _t in WIDE_TEXT.items():
    PROPS[_p]["bounds"]["quick"] += "; " + _t if _p not in ("C01", "C03", "C06") else ""
_LONG = "affinity propagation without absolute MUST_LINK handling and hierarchical/complete on 3 and 4 points of a line of which one is arbitrary; affinity propagation with 8 iterations on 5 points of a line of which one is arbitrary; metric-learning K-means with 3 iterations and its own metric on 5 fixed points, types on 2 pairs"
for _p in ("C23", "C24", "C25", "C31", "C34"):
    PROPS[_p]["bounds"]["quick"] += "; " + _LONG
PROPS["C18"]["bounds"]["quick"] += "; affinity propagation without absolute MUST_LINK handling on 3 points of a line of which one is arbitrary"
_SEP = "4 IDs of which different pairs read the same when their texts are joined, by any of the usual separators"
for _p in ("C02", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C22"):
    PROPS[_p]["bounds"]["quick"] += "; " + _SEP
PROPS["C20"]["bounds"]["quick"] += "; 8 iterations on 6 points of a line of which one is arbitrary"
MGR_BOUNDS["quick"] += "; " + _WM + "; " + _SEP
