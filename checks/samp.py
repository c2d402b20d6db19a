"""Harnesses for constraint sampling (sampling/)."""
import random
from itertools import combinations

from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory

from engine import state

from .mgr import build_graph, rehashed, observe
from .oracle import CL, ML

ALGOS = {
    "random": (None, None),
    "random_in_same_cluster": ("same_cluster", None),
    "farthest_in_same_cluster": ("same_cluster", "farthest_neighbors"),
    "closest_in_different_clusters": ("different_clusters", "closest_neighbors"),
}
CONFIGS = [(c, d) for c in (None, "same_cluster", "different_clusters") for d in (None, "closest_neighbors", "farthest_neighbors")]


def make_sampler(env, which, seed, wa, wi):
    """A sampler and its (cluster restriction, distance restriction)."""
    if isinstance(which, str):
        s = sampling_factory(algorithm=which, random_seed=seed, without_added_constraints=wa, without_inferred_constraints=wi)
        return s, ALGOS[which]
    c, d = which
    s = ClustersBasedConstraintsSampling(random_seed=seed, clusters_restriction=c, distance_restriction=d,
                                         without_added_constraints=wa, without_inferred_constraints=wi)
    return s, (c, d)


def labels_for(env, ids, lo, hi):
    given = list(env.params.get("_labels") or ())
    given += [None] * (len(ids) - len(given))
    return {d: env.label("label%d" % i, lo, hi) if given[i] is None else given[i] for i, d in enumerate(ids)}


def eligible_pairs(model, labels, clusters, wa, wi):
    clo = model.closure()
    out = []
    for a, b in combinations(model.ids, 2):
        a, b = (a, b) if bool(a < b) else (b, a)
        if wa and frozenset((a, b)) in model.cons:
            continue
        if wi and clo[a, b] is not None:
            continue
        if clusters == "same_cluster" and not bool(labels[a] == labels[b]):
            continue
        if clusters == "different_clusters" and bool(labels[a] == labels[b]):
            continue
        out.append((a, b))
    return out


def sample_once(env, n, order, how, algos, modes, nb_hi, vec="free", extra=True, edges=None, flags=None, lab=(None, None), types=None, nbs=None, grid=None, reuse=False, rep=None):
    ids_all = env.ids(n + 1, order)
    ids, other = ids_all[:n], ids_all[n]
    which = env.choose("algo", algos)
    wa, wi = env.choose("flags", flags or [(True, True), (True, False), (False, True), (False, False)])
    m, model = build_graph(env, ids, how, edges=edges, **({"types": types} if types else {}))
    s, (clusters, dist) = make_sampler(env, which, env.seed(), wa, wi)
    labels = labels_for(env, ids, *lab) if clusters else None
    kw = {}
    if clusters:
        kw["clustering_result"] = labels
    vectors = None
    if dist:
        vecs = env.vectors(ids + [other], vec, grid=grid, rep=rep)
        # another key order than the managed IDs, and an entry for an unmanaged ID
        keys = [other] + ids[::-1] if extra else ids
        vectors = {k: vecs[k] for k in keys}
        kw["vectors"] = vectors
    if reuse:
        # the sampler was used before, on the same manager and dictionaries with other contents
        kw1 = {}
        if clusters:
            kw1["clustering_result"] = {d: i % 2 for i, d in enumerate(ids)}
        if dist:
            kw1["vectors"] = {d: vectors[ids[i - 1]] for i, d in enumerate(ids)}
        st, got = env.call(s.sample, m, n, **kw1)
        env.check(st == "ok", "sampling failed: %r" % (got,))
        for key in kw1:
            kw1[key].clear()
            kw1[key].update(kw[key])
        kw = kw1
        a, b = ids[0], ids[-1]
        t = env.choose("late", [t for t in (None, ML, CL) if t is None or model.inferred(a, b) in (None, t)])
        if t is not None:
            m.add_constraint(b, a, t)
            model.add(a, b, t)
    nb = env.integer("nb", 0, nb_hi) if nbs is None else env.choose("nb", nbs)
    st, got = env.call(s.sample, m, nb, **kw)
    env.check(st == "ok", "sampling failed: %r" % (got,))
    return dict(ids=ids, m=m, model=model, labels=labels, vectors=vectors, nb=nb, got=got, clusters=clusters, dist=dist, wa=wa, wi=wi, s=s, kw=kw)


# -- C11 ---------------------------------------------------------------------------------------------------------
def eligibility(env, **k):
    r = sample_once(env, **k)
    el = eligible_pairs(r["model"], r["labels"], r["clusters"], r["wa"], r["wi"])
    got, nb = r["got"], r["nb"]
    env.check(isinstance(got, list) and all(isinstance(p, tuple) and len(p) == 2 for p in got), "not a list of pairs: %r" % (got,))
    for p in got:
        env.check(p in el, "pair %r is not eligible (eligible: %r)" % (p, el))
    env.check(len(set(got)) == len(got), "a pair is repeated: %r" % (got,))
    exp = min(int(nb), len(el))
    env.check(len(got) == exp, "%d pairs returned, %d expected" % (len(got), exp))
    if got:
        env.reach("pairs")
    if len(got) < len(el):
        env.reach("cut")
    if int(nb) > len(el):
        env.reach("short")


# -- C12 ---------------------------------------------------------------------------------------------------------
def extremal(env, **k):
    r = sample_once(env, **k)
    el = eligible_pairs(r["model"], r["labels"], r["clusters"], r["wa"], r["wi"])
    got, v = r["got"], r["vectors"]
    exp = min(int(r["nb"]), len(el))
    env.check(len(got) == exp and len(set(got)) == exp and all(p in el for p in got), "wrong pairs returned: %r" % (got,))
    d = {p: env.distance(v[p[0]], v[p[1]]) for p in el}
    sgn = 1 if r["dist"] == "closest_neighbors" else -1
    for p, q in zip(got, got[1:]):
        ok = env.le(d[p], d[q]) if sgn == 1 else env.le(d[q], d[p])
        env.check(ok, "pairs are not sorted by distance (%s)" % r["dist"])
    left = [p for p in el if p not in got]
    if got:
        last = got[-1]
        for p in left:
            ok = env.le(d[last], d[p]) if sgn == 1 else env.le(d[p], d[last])
            env.check(ok, "a %s pair was left out" % ("closer" if sgn == 1 else "farther"))
        if left:
            env.reach("left out")
    if len(got) > 1:
        env.reach("sorted")


# -- C13 ---------------------------------------------------------------------------------------------------------
def reproducible(env, n, order, how, algos, nb_hi, edges=None, seeded=True, vec="free", grid=None, lab=(None, None)):
    ids_all = env.ids(n + 1, order)
    ids, other = ids_all[:n], ids_all[n]
    which = env.choose("algo", algos)
    m, model = build_graph(env, ids, how, edges=edges)
    seed = env.seed(symbolic=True)
    s, (clusters, dist) = make_sampler(env, which, seed, True, True)
    kw = {}
    if clusters:
        kw["clustering_result"] = labels_for(env, ids, *lab)
    if dist:
        vecs = env.vectors(ids_all, vec, grid=grid)
        kw["vectors"] = {k: vecs[k] for k in [ids[-1], other] + ids[-2::-1]}
    nb = env.integer("nb", 1, nb_hi)
    before_lab = dict(kw.get("clustering_result", {}))
    before_vec = env.snapshot_vectors(kw["vectors"]) if dist else None
    order_before = m.get_list_of_managed_data_IDs()
    st, first = env.call(s.sample, m, nb, **kw)
    env.check(st == "ok", "sampling failed: %r" % (first,))
    first = list(first)
    random.random()   # the global generator is left in another state
    if env.choose("perturb", (False, True)):
        random.seed(4242 + getattr(env, "attempt", 0))
        random.random()
    st, second = env.call(s.sample, m, nb, **kw)
    env.check(st == "ok" and list(second) == first, "same sampler, same input, other pairs: %r then %r" % (first, second))
    state.reset()     # as in another process
    s2, _ = make_sampler(env, which, seed, True, True)
    random.random()
    st, third = env.call(s2.sample, m, nb, **kw)
    env.check(st == "ok" and list(third) == first, "new sampler with the same seed, other pairs: %r then %r" % (first, third))
    observe(env, m, model, ("ids", "inferred", "added", "comps"), "after sampling")
    env.check(m.get_list_of_managed_data_IDs() == order_before, "order of managed IDs changed")
    if clusters:
        now = kw["clustering_result"]
        env.check(list(now) == list(before_lab), "clustering result changed")
        env.check(env.all_of([now[k] == before_lab[k] for k in now]), "clustering result changed")
    if dist:
        now = list(kw["vectors"].items())
        env.check(len(now) == len(before_vec) and all(a[0] == b[0] and env.same_vector(a[1], b[1]) for a, b in zip(now, before_vec)),
                  "vectors changed")
    if first:
        env.reach("drawn")


def reproducible_hash(env, n, order, how, algos, nb_hi, edges=None, vec="free", grid=None, lab=(None, None)):
    """The same input in two processes: equal IDs, other hash values."""
    ids = env.ids(n, order)
    which = env.choose("algo", algos)
    m, model = build_graph(env, ids, how, edges=edges)
    seed = env.seed(symbolic=True)
    labels = labels_for(env, ids, *lab)
    vecs = env.vectors(ids, vec, grid=grid)
    nb = env.integer("nb", 1, nb_hi)
    res = []
    for hashes in ("asc", env.choose("hashes", ("desc", "apart"))):
        hid, hm = rehashed(env, ids, model, hashes)
        s, (clusters, dist) = make_sampler(env, which, seed, True, True)
        kw = {}
        if clusters:
            kw["clustering_result"] = {h: labels[d] for h, d in zip(hid, ids)}
        if dist:
            kw["vectors"] = {h: vecs[d] for h, d in zip(hid, ids)}
        st, r = env.call(s.sample, hm, nb, **kw)
        env.check(st == "ok", "sampling failed: %r" % (r,))
        res.append([(str(a), str(b)) for a, b in r])
    env.check(res[0] == res[1], "equal inputs with other hash values of the IDs give other pairs: %r then %r" % (res[0], res[1]))
    if res[0]:
        env.reach("drawn")
