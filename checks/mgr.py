"""Harnesses for the constraints manager (constraints/)."""
import copy
from itertools import combinations, permutations

from cognitivefactory.interactive_clustering.constraints.binary import (
    BinaryConstraintsManager, load_constraints_manager_from_json)
from cognitivefactory.interactive_clustering.constraints.factory import managing_factory

from .oracle import CL, ML, Model

TYPES = (None, ML, CL)
EVERYTHING = ("ids", "inferred", "added", "comps")


# -- building states through the public API -------------------------------------------------------------------
def pair_list(n, how):
    ps = list(combinations(range(n), 2))
    if how == "rev":
        ps = ps[::-1]
    elif how == "odd":  # far pairs first, arguments swapped on every other pair
        ps = sorted(ps, key=lambda p: (-(p[1] - p[0]), p))
    return [(b, a) if (how == "odd" and k % 2) or how == "rev" else (a, b) for k, (a, b) in enumerate(ps)]


def poke(env, m, model, force=False):
    """Ask everything in between (in cases that say so): the answers to earlier questions must not influence later ones."""
    if not (force or env.params.get("_ask")):
        return
    ids = model.ids
    m.get_list_of_managed_data_IDs()
    m.get_connected_components()
    m.check_completude_of_constraints()
    for a in ids:
        for b in ids:
            m.get_inferred_constraint(a, b)
            m.get_added_constraint(a, b)
            for t in (ML, CL):
                m.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t)
    if env.params.get("_ask") == "minmax" and ids:
        m.get_min_and_max_number_of_clusters()


class HashID(str):
    """A string with a chosen hash value: what another hash seed of the interpreter does to the iteration order of sets."""

    def __new__(cls, text, h):
        x = str.__new__(cls, text)
        x._h = h
        return x

    def __hash__(self):
        return self._h


def rehashed(env, ids, model, how):
    """A manager over equal IDs with other hash values, and the list of these IDs."""
    if how == "asc":
        hs = range(len(ids))
    elif how == "desc":
        hs = range(len(ids))[::-1]
    else:
        hs = [(3 * i + 1) % 7 for i in range(len(ids))]
    new = {str(d): HashID(str(d), h) for d, h in zip(ids, hs)}
    m = managing_factory([new[str(d)] for d in ids])
    order = {d: i for i, d in enumerate(ids)}
    for pair, t in model.cons.items():
        a, b = sorted(pair, key=lambda d: order[d])
        m.add_constraint(new[str(a)], new[str(b)], t)
    return [new[str(d)] for d in ids], m


def build_graph(env, ids, how="lex", edges=None, types=TYPES, tag="e", m=None, preset=()):
    """A manager holding an arbitrary consistent set of constraints over ids (symbolic type per pair)."""
    m = managing_factory(list(ids)) if m is None else m
    preset = preset or env.params.get("_preset")
    edges = env.params.get("_edges") if edges is None else edges
    model = Model(ids)
    for a, b, t in preset or ():     # given constraints, before the arbitrary ones
        st, v = env.call(m.add_constraint, ids[a], ids[b], t)
        env.check(st == "ok" and v is True and model.add(ids[a], ids[b], t), "a consistent constraint was not accepted: %r" % (v,))
    ps = pair_list(len(ids), how) if edges is None else edges
    for a, b in ps:
        inf = model.inferred(ids[a], ids[b])
        allowed = [t for t in types if t is None or inf is None or inf == t]
        t = env.choose("%s%d_%d" % (tag, a, b), allowed)
        if t is None:
            continue
        poke(env, m, model)
        st, v = env.call(m.add_constraint, ids[a], ids[b], t)
        env.check(st == "ok" and v is True, "a consistent constraint was not accepted: %r" % (v,))
        model.add(ids[a], ids[b], t)
    return m, model


def observe(env, m, model, what, msg):
    """Compare the observables named in `what` with the model."""
    ids = model.ids
    if "ids" in what:
        got = m.get_list_of_managed_data_IDs()
        env.check(len(got) == len(ids) and set(got) == set(ids), msg + ": managed IDs %r, expected %r" % (got, ids))
    if "inferred" in what:
        clo = model.closure()
        for (a, b), t in clo.items():
            got = m.get_inferred_constraint(a, b)
            env.check(got == t, msg + ": inferred(%r, %r) = %r, expected %r" % (str(a), str(b), got, t))
    if "added" in what:
        for a in ids:
            for b in ids:
                if a == b:
                    continue
                got = m.get_added_constraint(a, b)
                t = model.cons.get(frozenset((a, b)))
                ok = got is None if t is None else (isinstance(got, tuple) and len(got) == 2 and got[0] == t and got[1] == 1.0)
                env.check(ok, msg + ": added(%r, %r) = %r, expected %r" % (str(a), str(b), got, t))
    if "comps" in what:
        check_components(env, m, model, msg)


def check_components(env, m, model, msg):
    got = m.get_connected_components()
    flat = [d for c in got for d in c]
    env.check(all(len(c) > 0 for c in got), msg + ": empty component")
    env.check(len(flat) == len(model.ids) and set(flat) == set(model.ids),
              msg + ": components %r do not hold each of %r once" % (got, model.ids))
    env.check({frozenset(c) for c in got} == {frozenset(c) for c in model.components()},
              msg + ": components %r, expected %r" % (got, model.components()))


# -- operations -------------------------------------------------------------------------------------------------
def op_list(present, spare, kinds):
    """All operations on the given IDs: tuples (kind, args...)."""
    out = []
    if "add" in kinds:
        for a, b in combinations(present, 2):
            for t in (ML, CL):
                out.append(("add", a, b, t))
    if "addrev" in kinds:
        for a, b in combinations(present, 2):
            for t in (ML, CL):
                out.append(("add", b, a, t))
    if "del" in kinds:
        for a, b in combinations(present, 2):
            out.append(("del", a, b))
    if "delrev" in kinds:
        for a, b in combinations(present, 2):
            out.append(("del", b, a))
    if "delid" in kinds:
        for a in present:
            out.append(("delid", a))
    if "addid" in kinds:
        for a in spare:
            out.append(("addid", a))
    return out


def apply_op(env, m, model, op, msg):
    kind = op[0]
    poke(env, m, model)
    if kind == "add":
        _, a, b, t = op
        st, v = env.call(m.add_constraint, a, b, t)
        ok = model.add(a, b, t)
        if ok:
            env.check(st == "ok" and v is True, msg + ": consistent add_constraint refused: %r" % (v,))
        else:
            env.check(st == "err" and isinstance(v, ValueError), msg + ": contradictory add_constraint accepted")
            env.reach("conflict")
    elif kind == "del":
        _, a, b = op
        st, v = env.call(m.delete_constraint, a, b)
        model.delete(a, b)
        env.check(st == "ok" and v is True, msg + ": delete_constraint failed: %r" % (v,))
    elif kind == "delid":
        st, v = env.call(m.delete_data_ID, op[1])
        model.del_id(op[1])
        env.check(st == "ok" and v is True, msg + ": delete_data_ID failed: %r" % (v,))
    elif kind == "addid":
        st, v = env.call(m.add_data_ID, op[1])
        model.add_id(op[1])
        env.check(st == "ok" and v is True, msg + ": add_data_ID failed: %r" % (v,))


def run_history(env, m, model, spare, k, kinds, tag="op"):
    spare = list(spare)
    trace = []
    for s in range(k):
        ops = [o for o in op_list(model.ids, spare, kinds)]
        op = env.choose("%s%d" % (tag, s), ops)
        trace.append(op)
        if op[0] == "addid":
            spare.remove(op[1])
        elif op[0] == "delid":
            spare.append(op[1])
        apply_op(env, m, model, op, "step %d %r" % (s, op[0]))
    return trace


# -- C01 / C03 / C06 : state after any build or history -------------------------------------------------------
def graph_state(env, n, order, how, what):
    ids = env.ids(n, order)
    m, model = build_graph(env, ids, how)
    observe(env, m, model, what, "after adding constraints")
    if any(t == CL for t in model.cons.values()) and any(t == ML for t in model.cons.values()):
        env.reach("mixed")


def history_state(env, n, spare, k, order, what, kinds, prebuilt=False, how="lex"):
    ids = env.ids(n + spare, order)
    if prebuilt:
        m, model = build_graph(env, ids[:n], how)
    else:
        m, model = managing_factory(list(ids[:n])), Model(ids[:n])
    run_history(env, m, model, ids[n:], k, kinds)
    observe(env, m, model, what, "after the history")
    if len(model.cons) > 1:
        env.reach("history")


def graph_then_each_op(env, n, spare, order, how, what, kinds):
    """From an arbitrary state, each single operation (on its own copy) leads to the state the model predicts."""
    ids = env.ids(n + spare, order)
    m, model = build_graph(env, ids[:n], how)
    for op in op_list(model.ids, ids[n:], kinds):
        m2, model2 = copy.deepcopy(m), model.copy()
        apply_op(env, m2, model2, op, "op %r" % (op[0],))
        observe(env, m2, model2, what, "after %r" % (op[0],))
        env.reach("op")


def valued_state(env, n, order, how, what):
    """As graph_state, with an arbitrary constraint_value (the binary manager records 1.0) and one constraint repeated."""
    ids = env.ids(n, order)
    m, model = managing_factory(list(ids)), Model(ids)
    value = env.real("value", 0, 1)
    for a, b in pair_list(n, how) + [(1, 0)]:
        t = env.choose("e%d_%d" % (a, b), [t for t in TYPES if t is None or model.inferred(ids[a], ids[b]) in (None, t)])
        if t is not None:
            st, v = env.call(m.add_constraint, ids[a], ids[b], t, value)
            env.check(st == "ok" and v is True, "a consistent constraint was not accepted: %r" % (v,))
            model.add(ids[a], ids[b], t)
    observe(env, m, model, what, "after adding constraints with a value")


# -- C02 : contradiction detection, invalid input, atomicity -----------------------------------------------------
BAD_TYPES = ("must_link", "LINK", "", None, "CANNOT LINK", 1.0, "MUST_LINK ", " CANNOT_LINK", "MUST_LINK\n", "Must_Link",
             "cannot_link", "MUST-LINK", "ML", "CANNOT_LINKS", "MUST", 0, True)


def add_verdicts(env, n, order, how):
    ids = env.ids(n + 1, order)
    ids, stranger = ids[:n], ids[n]
    m, model = build_graph(env, ids, how)
    clo = model.closure()
    everything = ("ids", "inferred", "added")
    for a in ids:
        for b in ids:
            for t in (ML, CL):
                m2, model2 = copy.deepcopy(m), model.copy()
                st, v = env.call(m2.add_constraint, a, b, t)
                bad = clo[a, b] is not None and clo[a, b] != t
                if bad:
                    env.check(st == "err" and isinstance(v, ValueError), "contradictory constraint accepted (%r)" % (v,))
                    env.reach("conflict")
                else:
                    env.check(st == "ok" and v is True, "consistent constraint refused: %r" % (v,))
                    model2.add(a, b, t)
                observe(env, m2, model2, everything, "after %s add_constraint" % ("refused" if bad else "accepted"))
    bads = [(ids[0], ids[-1], bt) for bt in BAD_TYPES]
    bads += [(stranger, ids[0], ML), (ids[0], stranger, CL), (stranger, stranger, ML)]
    for a, b, t in bads:
        st, v = env.call(m.add_constraint, a, b, t)
        env.check(st == "err" and isinstance(v, ValueError), "invalid add_constraint accepted: %r %r" % (t, v))
    observe(env, m, model, everything, "after refused invalid add_constraint calls")


def never_inconsistent(env, n, k, order):
    """No history of accepted additions leads to a pair that is both linked and separated."""
    ids = env.ids(n, order)
    m = managing_factory(list(ids))
    model = Model(ids)
    for s in range(k):
        a, b = env.choose("p%d" % s, list(combinations(range(n), 2)))
        t = env.choose("t%d" % s, (ML, CL))
        apply_op(env, m, model, ("add", ids[a], ids[b], t), "step %d" % s)
    comps = [set(c) for c in m.get_connected_components()]
    for c in comps:
        for x in c:
            for y in c:
                env.check(m.get_inferred_constraint(x, y) == ML, "two IDs of a component not inferred MUST_LINK")
    for a, b in combinations(ids, 2):
        if m.get_inferred_constraint(a, b) == ML:
            env.check(m.get_inferred_constraint(b, a) == ML, "inference is not symmetric")


# -- C04 : IDs ---------------------------------------------------------------------------------------------------
def id_lifecycle(env, n, order, how):
    ids = env.ids(n + 1, order)
    base, extra = ids[:n], ids[n]
    m, model = build_graph(env, base, how)
    alls = ("ids", "inferred", "added", "comps")
    # add an unknown ID
    m2, mod2 = copy.deepcopy(m), model.copy()
    apply_op(env, m2, mod2, ("addid", extra), "add")
    observe(env, m2, mod2, alls, "after add_data_ID")
    # it can be constrained like any other
    m3, mod3 = copy.deepcopy(m2), mod2.copy()
    apply_op(env, m3, mod3, ("add", extra, base[0], ML), "link the new ID")
    observe(env, m3, mod3, alls, "after linking the new ID")
    m3, mod3 = copy.deepcopy(m2), mod2.copy()
    apply_op(env, m3, mod3, ("add", base[-1], extra, CL), "separate the new ID")
    observe(env, m3, mod3, alls, "after separating the new ID")
    # refused operations leave the state alone
    for f, a in ((m.add_data_ID, base[0]), (m.add_data_ID, base[-1]), (m.delete_data_ID, extra)):
        st, v = env.call(f, a)
        env.check(st == "err" and isinstance(v, ValueError), "invalid ID operation accepted: %r" % (v,))
    for f in (m.get_added_constraint, m.get_inferred_constraint, m.delete_constraint):
        for a, b in ((extra, base[0]), (base[0], extra), (extra, extra)):
            st, v = env.call(f, a, b)
            env.check(st == "err" and isinstance(v, ValueError), "operation on an unmanaged ID accepted: %r" % (v,))
    observe(env, m, model, alls, "after refused ID operations")
    # delete an ID, then bring it back: it comes back unconstrained
    d = base[env.choose("victim", range(n))]
    m4, mod4 = copy.deepcopy(m), model.copy()
    apply_op(env, m4, mod4, ("delid", d), "delete")
    observe(env, m4, mod4, alls, "after delete_data_ID")
    for f in (m4.get_added_constraint, m4.get_inferred_constraint):
        if mod4.ids:
            st, v = env.call(f, d, mod4.ids[0])
            env.check(st == "err" and isinstance(v, ValueError), "a deleted ID is still known: %r" % (v,))
    apply_op(env, m4, mod4, ("addid", d), "bring back")
    observe(env, m4, mod4, alls, "after bringing a deleted ID back")
    for o in mod4.ids:
        if o != d:
            env.check(m4.get_inferred_constraint(d, o) is None, "a re-added ID is still constrained")
    env.reach("readded")


# -- C07 / C08 / C09 ---------------------------------------------------------------------------------------------
def completeness(env, n, order, how):
    ids = env.ids(n, order)
    m, model = build_graph(env, ids, how)
    exp = all(t is not None for t in model.closure().values())
    got = m.check_completude_of_constraints()
    env.check(isinstance(got, bool) and got is exp, "completeness %r, expected %r" % (got, exp))
    env.reach("complete" if exp else "incomplete")


def completeness_after(env, n, order, how):
    ids = env.ids(n + 1, order)
    m, model = build_graph(env, ids[:n], how)
    for op in op_list(model.ids, ids[n:], ("add", "del", "delid", "addid")):
        m2, mod2 = copy.deepcopy(m), model.copy()
        apply_op(env, m2, mod2, op, "op")
        exp = all(t is not None for t in mod2.closure().values())
        env.check(m2.check_completude_of_constraints() is exp, "completeness after %r" % (op[0],))
        env.reach("complete" if exp else "incomplete")


def check_min_max(env, m, model):
    lo, hi = m.get_min_and_max_number_of_clusters()
    chi, deg = model.chromatic()
    ncomp = len(model.components())
    env.check(hi == ncomp, "maximum number of clusters %r, expected %r" % (hi, ncomp))
    env.check(lo >= 2 and lo >= chi, "minimum number of clusters %r below what the constraints need (%r)" % (lo, max(2, chi)))
    env.check(lo <= max(2, deg + 1), "minimum number of clusters %r above %r" % (lo, max(2, deg + 1)))
    return chi, ncomp


def min_max_after(env, n, order, how):
    """The bounds after any graph and any further operation, asked before it as well."""
    ids = env.ids(n + 1, order)
    m, model = build_graph(env, ids[:n], how)
    op = env.choose("op", op_list(model.ids, ids[n:], ("add", "del", "delid", "addid")))
    apply_op(env, m, model, op, "op")
    if model.ids:
        check_min_max(env, m, model)


def min_max(env, n, order, how):
    ids = env.ids(n, order)
    m, model = build_graph(env, ids, how)
    chi, ncomp = check_min_max(env, m, model)
    observe(env, m, model, ("ids", "inferred", "added"), "after get_min_and_max_number_of_clusters")
    if chi > 2:
        env.reach("chi>2")
    if ncomp < n:
        env.reach("merged")


def min_max_clique(env, n, order, extra):
    """All-different cores: k mutually separated groups plus free edges."""
    ids = env.ids(n, order)
    m = managing_factory(list(ids))
    model = Model(ids)
    k = env.choose("k", range(2, n + 1))
    for a, b in combinations(range(k), 2):
        apply_op(env, m, model, ("add", ids[b], ids[a], CL), "clique")
    for i in range(k, n):
        j = env.choose("to%d" % i, range(-1, i))
        if j >= 0:
            t = env.choose("t%d" % i, (ML, CL))
            apply_op(env, m, model, ("add", ids[i], ids[j], t), "attach")
    check_min_max(env, m, model)
    env.reach("clique")


def conflicts(env, n, order, how):
    ids = env.ids(n + 1, order)
    ids, stranger = ids[:n], ids[n]
    m, model = build_graph(env, ids, how)
    clo = model.closure()
    comps = {d: set(c) for c in model.components() for d in c}
    for a in ids:
        for b in ids:
            for t in (ML, CL):
                got = m.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t)
                if clo[a, b] is not None and clo[a, b] != t:
                    exp = comps[a] | comps[b]
                    env.check(got is not None and len(got) == len(exp) and set(got) == exp,
                              "IDs involved in the conflict %r, expected %r" % (got, exp))
                    env.reach("conflict")
                else:
                    env.check(got is None, "no conflict, yet IDs are listed: %r" % (got,))
                    env.reach("no conflict")
    f = m.get_list_of_involved_data_IDs_in_a_constraint_conflict
    for a, b, t in [(ids[0], ids[-1], bt) for bt in BAD_TYPES] + [(stranger, ids[0], ML), (ids[0], stranger, CL)]:
        st, v = env.call(f, a, b, t)
        env.check(st == "err" and isinstance(v, ValueError), "invalid conflict query answered: %r" % (v,))
    observe(env, m, model, ("ids", "inferred", "added"), "after conflict queries")


# -- C10 : JSON ---------------------------------------------------------------------------------------------------
def json_roundtrip(env, n, order, how, twice=False):
    ids = env.ids(n, order)
    m, model = build_graph(env, ids, how)
    if env.choose("del", (False, True)) and n > 1:
        # a state that went through a deletion
        apply_op(env, m, model, ("del", ids[0], ids[1]), "delete")
    alls = ("ids", "inferred", "added", "comps")
    with env.tmpfile() as f:
        env.check(m.to_json(filepath=f.name) is True, "to_json did not return True")
        observe(env, m, model, alls, "original after to_json")
        st, m2 = env.call(load_constraints_manager_from_json, f.name)
        env.check(st == "ok", "the saved file does not load: %r" % (m2,))
        observe(env, m2, model, alls, "loaded")
        env.check(m2.get_min_and_max_number_of_clusters()[1] == m.get_min_and_max_number_of_clusters()[1], "loaded: cluster bound")
        if len(model.cons) >= 1:
            env.reach("loaded")
        # the two managers are independent and the file can be written again
        if model.cons:
            a, b = tuple(next(iter(model.cons)))
            m2.delete_constraint(a, b)
            observe(env, m, model, alls, "original after editing the loaded one")
        if n > 1:   # a smaller state over the larger one
            apply_op(env, m, model, ("delid", ids[-1]), "delete an ID")
            for pair in list(model.cons):
                apply_op(env, m, model, ("del",) + tuple(pair), "delete")
        m.to_json(filepath=f.name)
        st, m3 = env.call(load_constraints_manager_from_json, f.name)
        env.check(st == "ok", "the file saved again does not load: %r" % (m3,))
        observe(env, m3, model, alls, "loaded again")


def forest_state(env, n, order, what, extra=0, kinds=()):
    """Each ID is attached to at most one earlier ID (every constraint forest), then `extra` arbitrary operations."""
    ids = env.ids(n, order)
    m = managing_factory(list(ids))
    model = Model(ids)
    for i in range(1, n):
        opts = [None] + [(j, t) for j in range(i) for t in (ML, CL)]
        o = env.choose("f%d" % i, opts)
        if o is None:
            continue
        a, b = (ids[i], ids[o[0]]) if i % 2 else (ids[o[0]], ids[i])
        apply_op(env, m, model, ("add", a, b, o[1]), "attach")
    if extra:
        run_history(env, m, model, [], extra, kinds)
    observe(env, m, model, what, "after adding a forest of constraints")
    if len(model.cons) >= 3:
        env.reach("forest")


def merge_order(env, sizes, order, what):
    """Groups of given sizes built separately, separated pairwise at will, then linked in any order."""
    n = sum(sizes)
    ids = env.ids(n, order)
    m = managing_factory(list(ids))
    model = Model(ids)
    groups, k = [], 0
    for s in sizes:
        groups.append(list(range(k, k + s)))
        k += s
    for g in groups:
        for a, b in zip(g, g[1:]):
            apply_op(env, m, model, ("add", ids[b], ids[a], ML), "group")
    steps = env.choose("steps", range(1, 4))
    for s in range(steps):
        gi, gj = env.choose("g%d" % s, list(combinations(range(len(groups)), 2)))
        t = env.choose("t%d" % s, (ML, CL))
        a = groups[gi][env.choose("a%d" % s, (0, -1)) if len(groups[gi]) > 1 else 0]
        b = groups[gj][env.choose("b%d" % s, (0, -1)) if len(groups[gj]) > 1 else 0]
        apply_op(env, m, model, ("add", ids[a], ids[b], t), "join")
    observe(env, m, model, what, "after joining groups")
    env.reach("joined")


# -- C33 ---------------------------------------------------------------------------------------------------------
def spoil(x, foreign):
    """Change in place whatever of a returned value can be changed."""
    if isinstance(x, dict):
        for y in list(x.values()):
            spoil(y, foreign)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for y in x:
            spoil(y, foreign)
        if isinstance(x, list):
            x.reverse()
            x.append(foreign)
            del x[:1]
    elif isinstance(x, set):
        x.clear()


def ownership(env, n, order, how, edges=None):
    ids_all = env.ids(n + 1, order)
    ids, extra = ids_all[:n], ids_all[n]
    given = list(ids)
    m = managing_factory(given)
    spoil(given, extra)
    m, model = build_graph(env, ids, how, edges=edges, m=m)
    observe(env, m, model, EVERYTHING, "after the list given at construction was changed")
    answers = [m.get_list_of_managed_data_IDs, m.get_connected_components]
    answers += [lambda a=a, b=b: m.get_added_constraint(a, b) for a in ids for b in ids]
    answers += [lambda a=a, b=b, t=t: m.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t) for a, b in combinations(ids, 2) for t in (ML, CL)]
    for f in answers:
        kept = f()
        text = repr(kept)
        spoil(f(), extra)
        env.check(repr(kept) == text, "changing a returned list changed one returned before: %s, was %s" % (repr(kept), text))
    observe(env, m, model, EVERYTHING, "after the returned lists were changed")
    # a second manager built from the answers of the first
    if n > 1:
        m2 = managing_factory(m.get_list_of_managed_data_IDs())
        m2.add_constraint(ids[0], ids[1], CL if model.inferred(ids[0], ids[1]) == ML else ML)
        m2.delete_data_ID(ids[-1])
        m2.add_data_ID(extra)
        observe(env, m, model, EVERYTHING, "after another manager was changed")
        held = [m.get_list_of_managed_data_IDs(), m.get_connected_components()]
        before = [list(held[0]), [list(c) for c in held[1]]]
        ops = [("delid", ids[0])]
        if model.inferred(ids[0], ids[1]) is None:
            ops.append(("add", ids[0], ids[1], ML))
        op = env.choose("op", ops) if len(ops) > 1 else ops[0]
        apply_op(env, m, model, op, "after the answers were changed")
        observe(env, m, model, EVERYTHING, "after the answers were changed and one operation")
        env.check(held[0] == before[0] and [list(c) for c in held[1]] == before[1], "a list returned before an operation changed with it: %r, was %r" % (held, before))
    if model.cons:
        env.reach("constraints")
    env.reach("owned")


def delete_then(env, n, k, order, how, what):
    """Any graph, one deletion, then k further operations; the state must be the one the model predicts throughout."""
    ids = env.ids(n, order)
    m, model = build_graph(env, ids, how)
    ops = [o for o in op_list(model.ids, [], ("del", "delid")) if o[0] == "delid" or frozenset(o[1:]) in model.cons]
    if not ops:
        return
    op = env.choose("deletion", ops)
    apply_op(env, m, model, op, "deletion")
    spare = [op[1]] if op[0] == "delid" else []
    run_history(env, m, model, spare, k, ("add", "del", "addid"))
    observe(env, m, model, what, "after deletion and further operations")
    env.reach("history")


# -- concrete operations found by the path-merging engine (checks/merged.py) -----------------------------------------
def script(env, ids, managed, ops, what, query=None, saved=False):
    """Run the given operations and compare every observable named in `what` with the model."""
    m, model = managing_factory(list(ids[:managed])), Model(ids[:managed])
    for s, op in enumerate(ops):
        args = [ids[i] if isinstance(i, int) else i for i in op[1:]]
        if op[0] == "ask":
            poke(env, m, model, force=True)
        elif op[0] == "bad":
            a, b = args
            if a not in model.ids or b not in model.ids:
                for f in (m.delete_constraint, m.get_added_constraint, m.get_inferred_constraint, lambda x, y: m.add_constraint(x, y, ML)):
                    st, v = env.call(f, a, b)
                    env.check(st == "err" and isinstance(v, ValueError), "operation on an unmanaged ID accepted: %r" % (v,))
            st, v = env.call(m.add_data_ID if a in model.ids else m.delete_data_ID, a)
            env.check(st == "err" and isinstance(v, ValueError), "invalid ID operation accepted: %r" % (v,))
        else:
            apply_op(env, m, model, (op[0],) + tuple(args), "step %d" % s)
    managers = [m]
    if saved:
        with env.tmpfile() as f:
            env.check(m.to_json(filepath=f.name) is True, "to_json did not return True")
            st, m2 = env.call(load_constraints_manager_from_json, f.name)
            env.check(st == "ok", "the saved file does not load: %r" % (m2,))
        managers.append(m2)
    for x in managers:
        observe(env, x, model, what, "after %d operations" % len(ops))
        clo = model.closure()
        if "complete" in what:
            exp = all(t is not None for t in clo.values())
            env.check(x.check_completude_of_constraints() is exp, "completeness, expected %r" % exp)
        if "conflict" in what and query and ids[query[0]] in model.ids and ids[query[1]] in model.ids:
            a, b, t = ids[query[0]], ids[query[1]], query[2]
            got = x.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t)
            if clo[a, b] is not None and clo[a, b] != t:
                comps = {d: set(c) for c in model.components() for d in c}
                exp = comps[a] | comps[b]
                env.check(got is not None and len(got) == len(exp) and set(got) == exp, "IDs involved in the conflict %r, expected %r" % (got, exp))
            else:
                env.check(got is None, "no conflict, yet IDs are listed: %r" % (got,))
