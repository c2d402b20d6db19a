"""Harnesses for constrained clustering (clustering/)."""
import contextlib
import inspect
import io
import random
from itertools import combinations

import numpy as np

from cognitivefactory.interactive_clustering.clustering.abstract import rename_clusters_by_order
from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory

from engine import state

from .mgr import TYPES, build_graph, observe, rehashed
from .oracle import CL, ML

EVERYTHING = ("ids", "inferred", "added", "comps")


def setup(env, n, order, how="lex", edges=None, types=None, vec="line", grid=None, lo=None, hi=None, extra=0, distinct=False, preset=(), **vk):
    """IDs, a manager with an arbitrary consistent constraint set, and a dictionary of arbitrary vectors."""
    ids_all = env.ids(n + extra, order)
    ids = ids_all[:n]
    m, model = build_graph(env, ids, how, edges=edges, types=tuple(types or TYPES), preset=preset)
    vecs = env.vectors(ids_all, vec, grid=grid, lo=lo, hi=hi, **vk)
    if distinct:
        for a, b in combinations(ids_all, 2):
            env.assume(env.distance(vecs[a], vecs[b]) > 0)
    return ids_all, ids, m, model, vecs


def well_formed(env, result, ids, what, noise=False):
    env.check(isinstance(result, dict) and len(result) == len(ids) and set(result) == set(ids),
              "%s: keys %r, managed IDs %r" % (what, sorted(map(str, result)) if isinstance(result, dict) else result, sorted(map(str, ids))))
    for d, v in result.items():
        env.check(isinstance(v, (int, np.integer)), "%s: label %r of %r is not an integer" % (what, v, d))


def canonical(env, result, what):
    """Labels 0..k-1 numbered by first occurrence over the sorted IDs."""
    nxt = 0
    for d in sorted(result):
        v = result[d]
        env.check(bool(0 <= v) and bool(v <= nxt), "%s: labels are not numbered by the sort order of the IDs: %r" % (what, {str(k): int(x) for k, x in result.items()}))
        if bool(v == nxt):
            nxt += 1
    return nxt


def respects(env, result, model, what, kinds=(ML, CL)):
    for (a, b), t in model.closure().items():
        if t == ML and ML in kinds:
            env.check(result[a] == result[b], "%s: MUST_LINK IDs %r and %r are in different clusters" % (what, str(a), str(b)))
        elif t == CL and CL in kinds:
            env.check(result[a] != result[b], "%s: CANNOT_LINK IDs %r and %r are in the same cluster" % (what, str(a), str(b)))


def run(env, obj, m, vectors, nb, what):
    st, r = env.call(obj.cluster, m, vectors, nb)
    env.check(st == "ok", "%s failed: %s %s" % (what, type(r).__name__, r))
    return r


# -- C14 ---------------------------------------------------------------------------------------------------------
def kmeans_constraints(env, n, order, nbs, iters, **k):
    ids_all, ids, m, model, vecs = setup(env, n, order, **k)
    nb = env.choose("nb", nbs)
    it = env.choose("iters", iters)
    c = clustering_factory("kmeans", max_iteration=it, tolerance=1e-4, random_seed=env.seed())
    r = run(env, c, m, {d: vecs[d] for d in ids}, nb, "kmeans")
    well_formed(env, r, ids, "kmeans")
    respects(env, r, model, "kmeans")
    if len(set(r.values())) > nb:
        env.reach("more clusters than requested")
    if ML in model.cons.values() and CL in model.cons.values():
        env.reach("mixed")


# -- C15 ---------------------------------------------------------------------------------------------------------
def hier_constraints(env, n, order, nbs, linkages, **k):
    ids_all, ids, m, model, vecs = setup(env, n, order, **k)
    nb = env.choose("nb", nbs)
    c = clustering_factory("hierarchical", linkage=env.choose("linkage", linkages), random_seed=env.seed())
    r = run(env, c, m, {d: vecs[d] for d in ids}, nb, "hierarchical")
    well_formed(env, r, ids, "hierarchical")
    respects(env, r, model, "hierarchical")
    for k2 in range(2, n + 2):
        for by in ("size", "iteration"):
            st, r2 = env.call(c.compute_predicted_clusters, nb_clusters=k2, by=by)
            env.check(st == "ok", "recomputing for %d clusters failed: %r" % (k2, r2))
            what = "hierarchical, recomputed for %d clusters by %s" % (k2, by)
            well_formed(env, r2, ids, what)
            respects(env, r2, model, what)
    if ML in model.cons.values() and CL in model.cons.values():
        env.reach("mixed")


# -- C16 ---------------------------------------------------------------------------------------------------------
def linkage_distance(env, linkage, A, B, dist, vecs):
    if linkage == "average":
        ca = sum([vecs[d] for d in A][1:], vecs[A[0]]) / len(A)
        cb = sum([vecs[d] for d in B][1:], vecs[B[0]]) / len(B)
        return env.distance(ca, cb)
    cross = [dist[a, b] for a in A for b in B]
    if linkage == "ward":
        u = list(A) + list(B)
        return sum(dist[x, y] for x, y in combinations(u, 2)) / (len(A) * len(B))
    return cross


def hier_tree(env, n, order, linkage, nb=2, **k):
    ids_all, ids, m, model, vecs = setup(env, n, order, **k)
    c = clustering_factory("hierarchical", linkage=linkage, random_seed=env.seed())
    run(env, c, m, {d: vecs[d] for d in ids}, nb, "hierarchical")
    dist = {}
    for a, b in combinations(ids, 2):
        dist[a, b] = dist[b, a] = env.distance(vecs[a], vecs[b])
    clo = model.closure()
    leaves, merges = [], []

    def walk(node):
        if node.children:
            env.check(sorted(node.members) == sorted(x for ch in node.children for x in ch.members), "a node does not hold exactly the IDs of its children")
            env.check(len(node.children) >= 2, "an inner node has a single child")
            for ch in node.children:
                walk(ch)
            merges.append(node)
        else:
            leaves.append(node)
    root = c.clustering_root
    walk(root)
    env.check(len(root.members) == n and set(root.members) == set(ids), "the root does not hold every ID once")
    env.check(sorted(sorted(x.members) for x in leaves) == sorted(sorted(g) for g in model.components()), "the leaves are not the MUST_LINK groups")
    merges.sort(key=lambda x: x.clustering_iteration)
    current = [tuple(sorted(x.members)) for x in leaves]

    def admissible():
        return [(A, B) for A, B in combinations(current, 2) if all(clo[a, b] != CL for a in A for b in B)]
    for step, node in enumerate(merges):
        ch = [tuple(sorted(x.members)) for x in node.children]
        env.check(all(x in current for x in ch), "step %d merges something that is not a current group" % step)
        adm = admissible()
        if not adm:
            env.check(node is root and len(ch) == len(current), "groups merged although no admissible pair is left")
            env.reach("forced root")
        else:
            env.check(len(ch) == 2 and ((ch[0], ch[1]) in adm or (ch[1], ch[0]) in adm), "step %d merges a pair that is not admissible" % step)
            d = linkage_distance(env, linkage, ch[0], ch[1], dist, vecs)
            for A, B in adm:
                if {A, B} == set(ch):
                    continue
                o = linkage_distance(env, linkage, A, B, dist, vecs)
                if linkage == "single":     # some cross distance of the merged pair is at most every cross distance of the other
                    ok = env.all_of([env.any_of([env.le(x, y) for x in d]) for y in o])
                elif linkage == "complete":
                    ok = env.all_of([env.any_of([env.le(x, y) for y in o]) for x in d])
                else:
                    ok = env.le(d, o)
                env.check(ok, "step %d (%s linkage) merged a pair that is not the closest admissible one" % (step, linkage))
            env.reach("merge")
            if len(adm) > 1 and step > 0:
                env.reach("later merge with a choice")
        for x in ch:
            current.remove(x)
        current.append(tuple(sorted(node.members)))


# -- C35 ---------------------------------------------------------------------------------------------------------
def parts_of(r):
    groups = {}
    for d, lab in r.items():
        groups.setdefault(int(lab), []).append(d)
    return {tuple(sorted(g)) for g in groups.values()}


def hier_cuts(env, n, order, linkages, nbs, **k):
    """Every cut of the tree of one run, by both rules."""
    ids_all, ids, m, model, vecs = setup(env, n, order, **k)
    linkage = env.choose("linkage", linkages)
    nb = env.choose("nb", nbs)
    v = {d: vecs[d] for d in ids}
    c = clustering_factory("hierarchical", linkage=linkage, random_seed=env.seed())
    r0 = dict(run(env, c, m, v, nb, "hierarchical"))
    nodes, todo = {}, [c.clustering_root]
    while todo:
        x = todo.pop()
        nodes[tuple(sorted(x.members))] = (x.clustering_iteration, [tuple(sorted(ch.members)) for ch in x.children])
        todo += list(x.children)
    top = n + 1
    for by in ("iteration", "size"):
        cuts = {}
        for kk in list(range(top, 0, -1)) + list(range(1, top + 1)):
            st, r = env.call(c.compute_predicted_clusters, nb_clusters=kk, by=by)
            env.check(st == "ok", "cut into %d by %s failed: %r" % (kk, by, r))
            well_formed(env, r, ids, "cut into %d by %s" % (kk, by))
            p = parts_of(r)
            env.check(cuts.setdefault(kk, p) == p, "the cut into %d by %s differs when asked again" % (kk, by))
            env.check(all(x in nodes for x in p), "the cut into %d by %s has a cluster that is no node of the tree" % (kk, by))
        env.check(cuts[1] == {tuple(sorted(ids))}, "the cut into 1 is not the whole")

        def rank(x):
            return len(x) if by == "size" else nodes[x][0]
        for kk in range(2, top + 1):
            prev, p = cuts[kk - 1], cuts[kk]
            best = [x for x in prev if rank(x) == max(rank(y) for y in prev)]
            if len(prev) >= kk:
                env.check(p == prev, "the cut into %d by %s goes further than asked" % (kk, by))
            elif p == prev:
                env.check(any(not nodes[x][1] for x in best), "the cut into %d by %s stops although the cluster to split has parts" % (kk, by))
                env.reach("stopped")
            else:
                env.check(any(nodes[x][1] and p == (prev - {x}) | set(nodes[x][1]) for x in best),
                          "the cut into %d by %s is not the one into %d with its %s cluster split" % (kk, by, kk - 1, "largest" if by == "size" else "last merged"))
                env.reach("split")
        if by == "size":
            env.check(parts_of(r0) == cuts[min(nb, top)], "clustering into %d is not the cut into %d" % (nb, nb))
            other = 3 if nb == 2 else 2
            c2 = clustering_factory("hierarchical", linkage=linkage, random_seed=env.seed())
            r2 = run(env, c2, m, v, other, "hierarchical")
            env.check(parts_of(r2) == cuts[min(other, top)], "clustering into %d is not the cut into %d of the first run" % (other, other))
    env.check(dict(c.dict_of_predicted_clusters) == r0, "cutting the tree changed the result kept by the object")

    def mirrored(node, d):
        depth = 1 + max(x.cluster_inverse_depth for x in node.children) if node.children else 0
        return (d["cluster_ID"] == node.cluster_ID and d["clustering_iteration"] == node.clustering_iteration and list(d["members"]) == list(node.members)
                and d["cluster_inverse_depth"] == node.cluster_inverse_depth == depth and len(d["children"]) == len(node.children)
                and all(mirrored(x, y) for x, y in zip(node.children, d["children"])))
    env.check(mirrored(c.clustering_root, c.clustering_root.to_dict()), "the tree exported as a dictionary is not the tree")


# -- C17 ---------------------------------------------------------------------------------------------------------
def kmeans_fixed_point(env, n, order, nbs, iters, tol, fixed=True, **k):
    ids_all, ids, m, model, vecs = setup(env, n, order, **k)
    nb = env.choose("nb", nbs)
    c = clustering_factory("kmeans", max_iteration=iters, tolerance=tol, random_seed=env.seed())
    v = {d: vecs[d] for d in ids}
    r = run(env, c, m, v, nb, "kmeans")
    well_formed(env, r, ids, "kmeans")
    labels = sorted(set(int(x) for x in r.values()))
    env.check(sorted(int(x) for x in c.centroids) == labels, "centroids are kept for %r, clusters are %r" % (sorted(c.centroids), labels))
    means = {}
    for lab in labels:
        mem = [d for d in ids if r[d] == lab]
        means[lab] = sum([v[d] for d in mem][1:], v[mem[0]]) / len(mem)
        d0 = env.gap(means[lab], c.centroids[lab])
        env.check(env.close(d0, 0), "the centroid kept for cluster %d is not the mean of that cluster" % lab)
    if len(labels) > 1:
        env.reach("several")
    if fixed and not model.cons:
        # the iteration limit of this case exceeds the number of possible partitions, so the run stopped by convergence
        for d in ids:
            own = env.distance(v[d], means[int(r[d])])
            for lab in labels:
                if lab != r[d]:
                    env.check(env.le(own, env.distance(v[d], means[lab]) + 2 * tol), "an ID is nearer to the mean of another cluster")
        env.reach("fixed point")


# -- C18 ---------------------------------------------------------------------------------------------------------
def rename(env, n, order, lab):
    ids = env.ids(n, order)
    given = list(env.params.get("_labels") or ())
    given += [None] * (n - len(given))
    labels = {d: env.label("lab%d" % i, lab[0], lab[1]) if given[i] is None else given[i] for i, d in enumerate(ids)}
    before = dict(labels)
    st, r = env.call(rename_clusters_by_order, labels)
    env.check(st == "ok", "rename_clusters_by_order failed: %r" % (r,))
    env.check(len(r) == n and set(r) == set(ids), "renaming changed the set of IDs")
    for a, b in combinations(ids, 2):
        same = bool(before[a] == before[b])
        env.check((r[a] == r[b]) if same else (r[a] != r[b]), "renaming changed the partition")
    k = canonical(env, r, "renaming")
    env.check(len(labels) == n and all(labels[d] is before[d] for d in before), "renaming changed its argument")
    if k > 1:
        env.reach("several")


def labels_of(env, algo, n, order, nbs, opts=None, noise=False, extra=0, **k):
    ids_all, ids, m, model, vecs = points_setup(env, algo, n, order, extra=extra, **k)
    o = dict(opts or {})
    c = clustering_factory(algo, random_seed=env.seed(), **o)
    nb = env.choose("nb", nbs)
    with solver_stub(env, algo):
        r = run(env, c, m, {d: vecs[d] for d in ids_all[::-1]} if extra else {d: vecs[d] for d in ids}, nb, algo)
    well_formed(env, r, ids, algo)
    if algo == "affinity_propagation" and all(int(v) == 0 for v in r.values()):
        return
    cnt = canonical(env, r, algo)
    if cnt > 1:
        env.reach("several")
    env.check(c.dict_of_predicted_clusters == r, "the stored result differs from the returned one")


# -- C19 ---------------------------------------------------------------------------------------------------------
class solver_stub:
    """In a replay, SpectralClustering is replaced by a recorder that returns the recorded labels; the symbolic run
    installs the corresponding stand-in for the whole process (engine/libs.py)."""

    def __init__(self, env, algo, labels=None):
        self.env, self.on = env, algo == "spectral" and env.concrete

    def __enter__(self):
        if not self.on:
            return self
        import sys
        import sklearn.cluster as sc
        env = self.env
        real = sc.SpectralClustering

        class Recorder:
            def __init__(self, n_clusters=8, **kw):
                self.n_clusters, self.kw = n_clusters, kw
                env.spectral_calls.append(self)

            def fit_predict(self, X, y=None):
                self.X = np.array(X, copy=True)
                self.labels_ = np.array(env.spectral_labels(self, self.X.shape[0]))
                return self.labels_

            def fit(self, X, y=None):
                self.fit_predict(X)
                return self
        self.saved = []
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == "sklearn.cluster" or name.startswith("cognitivefactory.")):
                for key, v in list(vars(mod).items()):
                    if v is real:
                        self.saved.append((mod, key, v))
                        setattr(mod, key, Recorder)
        return self

    def __exit__(self, *a):
        if self.on:
            for mod, key, v in self.saved:
                setattr(mod, key, v)
        return False


def spectral_alignment(env, n, order, nbs, extra=1, comps=(None,), **k):
    env.model_spectral = True
    ids_all, ids, m, model, vecs = setup(env, n, order, extra=extra, **k)
    nb = env.choose("nb", nbs)
    seed = env.seed()
    nc = env.choose("components", comps)
    c = clustering_factory("spectral", random_seed=seed, nb_components=nc)
    with solver_stub(env, "spectral"):
        r = run(env, c, m, {d: vecs[d] for d in ids_all[::-1]}, nb, "spectral")
    well_formed(env, r, ids, "spectral")
    env.check(len(env.spectral_calls) == 1, "the spectral solver was called %d times" % len(env.spectral_calls))
    call = env.spectral_calls[0]
    env.check(int(call.n_clusters) == min(nb, n), "the solver was asked for %r clusters" % (call.n_clusters,))
    env.check(call.kw.get("affinity") == "precomputed" and call.kw.get("random_state") == seed, "solver arguments %r" % (call.kw,))
    env.check(call.X.shape == (n, n), "similarity matrix of shape %r" % (call.X.shape,))
    order_ids = m.get_list_of_managed_data_IDs()
    clo = model.closure()
    ones = zeros = 0
    for i, a in enumerate(order_ids):
        for j, b in enumerate(order_ids):
            t = clo[a, b]
            if t == ML:
                exp = 1
                ones += a != b
            elif t == CL:
                exp = 0
                zeros += 1
            else:
                exp = env.kernel_value(vecs[a], vecs[b])
            env.check(env.close(call.X[i, j], exp), "similarity of %r and %r is not what the %s requires" % (str(a), str(b), t or "vectors"))
    lab = list(call.labels_)
    for i, j in combinations(range(n), 2):
        same = bool(lab[i] == lab[j])
        env.check((r[order_ids[i]] == r[order_ids[j]]) is same or bool((r[order_ids[i]] == r[order_ids[j]])) == same,
                  "the grouping is not the one the solver returned")
    if ones:
        env.reach("must")
    if zeros:
        env.reach("cannot")


# -- C20 ---------------------------------------------------------------------------------------------------------
def affinity_must_link(env, n, order, iters, conv, **k):
    ids_all, ids, m, model, vecs = setup(env, n, order, **k)
    c = clustering_factory("affinity_propagation", max_iteration=iters, convergence_iteration=conv, random_seed=env.seed())
    r = run(env, c, m, {d: vecs[d] for d in ids}, None, "affinity propagation")
    well_formed(env, r, ids, "affinity propagation")
    respects(env, r, model, "affinity propagation", (ML,))
    if ML in model.cons.values() and len(set(int(v) for v in r.values())) > 1:
        env.reach("groups")


# -- C21 ---------------------------------------------------------------------------------------------------------
def mpck_counts(env, n, order, nbs, iters, ws, points=None, metric=False, extra=0, **k):
    env.model_metric = metric
    if points is not None:
        k = dict(k, vec="grid", grid=[points[0]])
    ids_all = env.ids(n + extra, order)
    ids = ids_all[:n]
    m, model = build_graph(env, ids, k.get("how", "lex"), edges=k.get("edges"), types=tuple(k.get("types") or TYPES))
    if points is not None:
        from scipy.sparse import csr_matrix
        vecs = {d: csr_matrix([list(map(float, points[i]))]) for i, d in enumerate(ids_all)}
    else:
        vecs = env.vectors(ids_all, k.get("vec", "line"), grid=k.get("grid"))
        for a, b in combinations(ids_all, 2):
            env.assume(env.distance(vecs[a], vecs[b]) > 0)
    nb = env.choose("nb", nbs)
    c = clustering_factory("mpckmeans", max_iteration=env.choose("iters", iters), w=env.choose("w", ws), random_seed=env.seed())
    r = run(env, c, m, {d: vecs[d] for d in (ids_all[::-1] if extra else ids)}, nb, "mpckmeans")
    well_formed(env, r, ids, "mpckmeans")
    got = len(set(int(v) for v in r.values()))
    env.check(got == min(nb, n), "mpckmeans returned %d clusters, %d requested" % (got, nb))
    canonical(env, r, "mpckmeans")
    env.reach("done")


# -- C22 ---------------------------------------------------------------------------------------------------------
def dbscan(env, n, order, mins, thr=True, epss=None, **k):
    ids_all = env.ids(n, order)
    ids = ids_all
    m, model = build_graph(env, ids, k.get("how", "lex"), edges=k.get("edges"), types=tuple(k.get("types") or TYPES))
    if k.get("vec", "free") == "free":
        eps = env.real("eps")
        env.assume(eps > 0)
        vecs = env.vectors(ids, "free", thresholds={"eps": eps}, rep=k.get("rep"))
    else:
        eps = env.choose("eps", epss) if epss else env.real("eps")
        env.assume(eps > 0)
        vecs = env.vectors(ids, k["vec"], grid=k.get("grid"))
    ms = env.choose("min_samples", mins)
    c = clustering_factory("dbscan", eps=eps, min_samples=ms, random_seed=env.seed())
    r = run(env, c, m, {d: vecs[d] for d in ids}, None, "dbscan")
    well_formed(env, r, ids, "dbscan")
    reg = {d: int(v) for d, v in r.items() if v >= 0}
    noise = sorted(int(v) for v in r.values() if v < 0)
    env.check(noise == list(range(-len(noise), 0)), "noise labels are %r" % (noise,))
    kk = canonical(env, reg, "dbscan") if reg else 0
    env.check(c.number_of_regular_clusters == kk and c.number_of_single_noise_point_clusters == len(noise)
              and c.number_of_clusters == kk + len(noise), "reported counts %r/%r/%r, labels show %d/%d" % (
                  c.number_of_regular_clusters, c.number_of_single_noise_point_clusters, c.number_of_clusters, kk, len(noise)))
    clo = model.closure()
    for a, b in combinations(ids, 2):
        if clo[a, b] == CL:
            env.check(r[a] != r[b], "dbscan: CANNOT_LINK IDs %r and %r are in the same cluster" % (str(a), str(b)))
            env.reach("cannot")
    for d in ids:
        if ms >= 2 and all(clo[d, o] is None for o in ids if o != d):
            if all(not env.le(env.distance(vecs[d], vecs[o]), eps) for o in ids if o != d):
                env.check(r[d] < 0, "dbscan: an isolated unconstrained ID is not noise")
                env.reach("isolated")
    if kk > 1:
        env.reach("several")
    if noise:
        env.reach("noise")


# -- C23 / C24 / C25 / C31 : all algorithms ------------------------------------------------------------------------
NO_NB = ("dbscan", "affinity_propagation")


def points_setup(env, algo, n, order, extra=0, points=None, metric=False, noise=False, tag="", **k):
    if algo == "spectral":
        env.model_spectral = True
    env.model_metric = metric
    env.noise = noise
    if points is None:
        return setup(env, n, order, extra=extra, **k)
    from scipy.sparse import csr_matrix
    ids_all = env.ids(n + extra, order)
    ids = ids_all[:n]
    m, model = build_graph(env, ids, k.get("how", "lex"), edges=k.get("edges"), types=tuple(k.get("types") or TYPES), preset=k.get("preset"))
    return ids_all, ids, m, model, {d: csr_matrix([list(map(float, points[i]))]) for i, d in enumerate(ids_all)}


def published(env, c, algo, vectors):
    """Attributes a user reads after a run, in comparable form."""
    out = {"dict_of_predicted_clusters": {k: int(v) for k, v in c.dict_of_predicted_clusters.items()}, "nb_clusters": getattr(c, "nb_clusters", None)}
    if algo == "hierarchical":
        out["tree"] = c.clustering_root.to_dict()
    if algo == "dbscan":
        out["counts"] = (c.number_of_clusters, c.number_of_regular_clusters, c.number_of_single_noise_point_clusters)
    if algo == "kmeans":
        out["centroid keys"] = sorted(c.centroids)
    return out


def settings(c):
    """What the object was created with, as it holds it now."""
    names = [p for p in inspect.signature(type(c).__init__).parameters if p not in ("self", "kargs", "random_seed")]
    return {p: getattr(c, p) for p in names if hasattr(c, p)}


def perturb(env):
    random.random()
    np.random.random()
    if env.concrete:   # another state of the global generators at every call
        env.perturbed = getattr(env, "perturbed", 0) + 1
        random.seed(991 + 1000 * env.attempt + env.perturbed)
        np.random.seed(992 + 1000 * env.attempt + env.perturbed)
        random.random()
        np.random.random()


def reproducible(env, algo, n, order, nb=None, opts=None, **k):
    ids_all, ids, m, model, vecs = points_setup(env, algo, n, order, **k)
    seed = env.seed(symbolic=True)
    v = {d: vecs[d] for d in ids}
    perturb(env)
    with solver_stub(env, algo):
        c1 = clustering_factory(algo, random_seed=seed, **(opts or {}))
        r1 = dict(run(env, c1, m, v, nb, algo))
        perturb(env)
        r2 = dict(run(env, c1, m, v, nb, algo))
        env.check(r1 == r2, "%s: a second run of the same object gives another result: %r then %r" % (algo, r1, r2))
        state.reset()     # as in another process
        c2 = clustering_factory(algo, random_seed=seed, **(opts or {}))
        perturb(env)
        r3 = dict(run(env, c2, m, v, nb, algo))
        env.check(r1 == r3, "%s: a new object with the same seed gives another result: %r then %r" % (algo, r1, r3))
    if len(set(int(x) for x in r1.values())) > 1:
        env.reach(algo)


def reproducible_hash(env, algo, n, order, nb=None, opts=None, **k):
    """The same input in two processes: equal IDs, other hash values."""
    ids_all, ids, m, model, vecs = points_setup(env, algo, n, order, **k)
    seed = env.seed(symbolic=True)
    res, pub = [], []
    for how in ("asc", env.choose("hashes", ("desc", "apart"))):
        hid, hm = rehashed(env, ids, model, how)
        v = {h: vecs[d] for h, d in zip(hid, ids)}
        with solver_stub(env, algo):
            c = clustering_factory(algo, random_seed=seed, **(opts or {}))
            r = run(env, c, hm, v, nb, algo)
        res.append({str(d): int(x) for d, x in r.items()})
    env.check(res[0] == res[1], "%s: equal inputs with other hash values of the IDs give another result: %r then %r" % (algo, res[0], res[1]))
    if len(set(res[0].values())) > 1:
        env.reach(algo)


def quiet(obj, m, v, nb, verbose):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        r = obj.cluster(m, v, nb, verbose=verbose)
    return r, bool(out.getvalue())


def verbose_neutral(env, algo, n, order, nb=None, opts=None, **k):
    """The same run with and without progress messages."""
    ids_all, ids, m, model, vecs = points_setup(env, algo, n, order, **k)
    seed = env.seed(symbolic=True)
    v = {d: vecs[d] for d in ids}
    with solver_stub(env, algo):
        res = []
        for verbose in (False, True):
            c = clustering_factory(algo, random_seed=seed, **(opts or {}))
            perturb(env)
            st, r = env.call(quiet, c, m, v, nb, verbose)
            env.check(st == "ok", "%s failed with verbose=%r: %s %s" % (algo, verbose, type(r).__name__, r))
            well_formed(env, r[0], ids, "%s, verbose=%r" % (algo, verbose), noise=True)
            env.check(verbose or not r[1], "%s prints without being asked to" % algo)
            res.append(dict(r[0]))
            again = c.dict_of_predicted_clusters
            env.check(dict(again) == res[-1], "%s: the result kept by the object is not the one returned: %r, %r" % (algo, again, res[-1]))
    env.check(res[0] == res[1], "%s: progress messages change the result: %r without, %r with" % (algo, res[0], res[1]))
    observe(env, m, model, EVERYTHING, "%s with progress messages" % algo)
    if len(set(int(x) for x in res[0].values())) > 1:
        env.reach(algo)


def inputs_untouched(env, algo, n, order, nb=None, opts=None, extra=0, **k):
    ids_all, ids, m, model, vecs = points_setup(env, algo, n, order, extra=extra, **k)
    v = {d: vecs[d] for d in ids_all[::-1]}
    before_v = env.snapshot_vectors(v)
    before_ids = list(m.get_list_of_managed_data_IDs())
    before_comps = [list(x) for x in m.get_connected_components()]
    c = clustering_factory(algo, random_seed=env.seed(), **(opts or {}))
    with solver_stub(env, algo):
        for t in ("first", "second"):
            run(env, c, m, v, nb, algo)
            env.check(list(m.get_list_of_managed_data_IDs()) == before_ids, "%s changed the list of managed IDs (%s run)" % (algo, t))
            observe(env, m, model, EVERYTHING, "%s, %s run" % (algo, t))
            env.check([list(x) for x in m.get_connected_components()] == before_comps, "%s changed the groups (%s run)" % (algo, t))
            env.check(list(v) == [a for a, _ in before_v], "%s changed the keys of the vectors (%s run)" % (algo, t))
            for a, old in before_v:
                env.check(env.same_vector(v[a], old), "%s changed the vector of %r (%s run)" % (algo, str(a), t))
    env.reach(algo)


def reuse(env, algo, n, order, nb=None, opts=None, first=None, **k):
    """A run on another input first (other IDs partly, other constraints, other vectors) leaves no trace."""
    ids_all, ids, m, model, vecs = points_setup(env, algo, n, order, extra=1, **k)
    opts = opts or {}
    seed = env.seed()
    v = {d: vecs[d] for d in ids}
    f = dict(first or {})
    if f.get("same"):
        return reuse_same(env, algo, nb, opts, ids, m, model, v, seed, f.get("late", (None, ML, CL)))
    ids1 = [ids_all[i] for i in f.get("ids", range(1, n + 1))]
    m1, _ = build_graph(env, ids1, edges=[tuple(e) for e in f.get("edges", [(0, 1)])], types=tuple(f.get("types", TYPES)), tag="first")
    v1 = {d: vecs[ids_all[-1 - i]] for i, d in enumerate(ids1)}
    def before(used):
        run(env, used, m1, v1, f.get("nb", nb), algo + " (first input)")
    compare_reuse(env, algo, nb, opts, m, v, seed, before)


def reuse_same(env, algo, nb, opts, ids, m, model, v, seed, late):
    """The next iteration of an annotation: the same object, manager and dictionary, with one more constraint and other
    vectors in the dictionary."""
    held = {d: v[ids[i - 1]] for i, d in enumerate(ids)}

    def before(used):
        run(env, used, m, held, nb, algo + " (first input)")
        held.update(v)
        t = env.choose("late", [t for t in late if t is None or model.inferred(ids[0], ids[-1]) in (None, t)])
        if t is not None:
            m.add_constraint(ids[-1], ids[0], t)
    compare_reuse(env, algo, nb, opts, m, held, seed, before)


def compare_reuse(env, algo, nb, opts, m, v, seed, before):
    with solver_stub(env, algo):
        used = clustering_factory(algo, random_seed=seed, **opts)
        given = settings(used)
        before(used)
        r1 = dict(run(env, used, m, v, nb, algo))
        a1 = published(env, used, algo, v)
        state.reset()     # as in another process
        fresh = clustering_factory(algo, random_seed=seed, **opts)
        r2 = dict(run(env, fresh, m, v, nb, algo))
        a2 = published(env, fresh, algo, v)
    env.check(r1 == r2, "%s: reused object returns %r, a fresh one %r" % (algo, r1, r2))
    env.check(settings(used) == given, "%s: a run changed the settings of the object: %r, were %r" % (algo, settings(used), given))
    for key in a2:
        env.check(a1.get(key) == a2[key], "%s: attribute %s of a reused object differs from a fresh one: %r / %r" % (algo, key, a1.get(key), a2[key]))
    if algo == "kmeans":
        for key in fresh.centroids:
            env.check(env.close(env.gap(used.centroids[key], fresh.centroids[key]), 0), "kmeans: centroid of a reused object differs")
    env.reach(algo)


def dict_order(env, algo, n, order, nb=None, opts=None, **k):
    ids_all, ids, m, model, vecs = points_setup(env, algo, n, order, extra=1, **k)
    seed = env.seed()
    if k.get("vec") in ("line", "grid"):
        vecs[ids_all[-1]] = vecs[ids_all[-1]] * 10 ** 6   # out of scale with the others, unless it is zero
    keys = env.choose("keys", [ids_all[::-1], [ids_all[-1]] + ids[1:] + ids[:1], ids[::-1]])
    with solver_stub(env, algo):
        c1 = clustering_factory(algo, random_seed=seed, **(opts or {}))
        r1 = dict(run(env, c1, m, {d: vecs[d] for d in ids}, nb, algo))
        c2 = clustering_factory(algo, random_seed=seed, **(opts or {}))
        r2 = dict(run(env, c2, m, {d: vecs[d] for d in keys}, nb, algo + " with another dictionary order"))
    env.check(r1 == r2, "%s: another order of the dictionary of vectors gives another result: %r / %r" % (algo, r1, r2))
    if len(set(int(x) for x in r1.values())) > 1:
        env.reach(algo)


# -- C32 ---------------------------------------------------------------------------------------------------------
def counts(env, algo, n, order, nbs, opts=None, **k):
    ids_all, ids, m, model, vecs = setup(env, n, order, **k)
    nb = env.choose("nb", nbs)
    o = dict(opts or {})
    if algo == "hierarchical":
        o["linkage"] = env.choose("linkage", o.get("linkage", ["ward"]))
    c = clustering_factory(algo, random_seed=env.seed(), **o)
    r = run(env, c, m, {d: vecs[d] for d in ids}, nb, algo)
    got = len(set(int(v) for v in r.values()))
    groups = len(model.components())
    env.check(1 <= got <= groups, "%s: %d clusters for %d MUST_LINK groups" % (algo, got, groups))
    cl = CL in model.cons.values()
    if not cl:
        if algo == "kmeans":
            env.check(got <= nb, "kmeans: %d clusters, %d requested, no CANNOT_LINK" % (got, nb))
        elif groups == n:
            env.check(got == min(nb, n), "hierarchical: %d clusters, %d requested for %d separate IDs" % (got, nb, n))
            env.reach("exact")
    env.reach(algo)
