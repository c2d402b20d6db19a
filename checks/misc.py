"""Harnesses for parameters, utilities and the annotation loop."""
import sys
import unicodedata
from itertools import combinations

import numpy as np

from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
from cognitivefactory.interactive_clustering.clustering.affinity_propagation import AffinityPropagationConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.dbscan import DBScanConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.hierarchical import HierarchicalConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.kmeans import KMeansConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.mpckmeans import MPCKMeansConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.spectral import SpectralConstrainedClustering
from cognitivefactory.interactive_clustering.constraints.factory import managing_factory
from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory
from cognitivefactory.interactive_clustering.utils.frequency import compute_clusters_frequency
from cognitivefactory.interactive_clustering.utils.preprocessing import preprocess
from cognitivefactory.interactive_clustering.utils.vectorization import vectorize

from .clus import run, solver_stub, well_formed
from .oracle import CL, ML


# -- C26 ---------------------------------------------------------------------------------------------------------
def verdict(env, fn, kw, bad, what, keep=()):
    """bad: condition under which the call must be refused."""
    st, v = env.call(fn, **kw)
    if bool(bad):
        env.check(st == "err" and isinstance(v, ValueError), "%s: invalid parameters accepted or wrong error: %r" % (what, v))
        env.reach("refused")
        return None
    env.check(st == "ok", "%s: valid parameters refused: %s %s" % (what, type(v).__name__, v))
    for attr in keep:
        env.check(getattr(v, attr) == kw[attr], "%s: %s was not kept as given" % (what, attr))
    env.reach("accepted")
    return v


CTOR = {"kmeans": KMeansConstrainedClustering, "hierarchical": HierarchicalConstrainedClustering, "spectral": SpectralConstrainedClustering,
        "mpckmeans": MPCKMeansConstrainedClustering, "affinity_propagation": AffinityPropagationConstrainedClustering, "dbscan": DBScanConstrainedClustering}


def constructor(env, algo):
    via = env.choose("via", ["class", "factory"])
    fn = CTOR[algo] if via == "class" else (lambda **kw: clustering_factory(algo, **kw))
    seed = env.choose("seed", [None, 3])
    kw = {"random_seed": seed}
    bad = []
    if algo in ("kmeans", "mpckmeans", "affinity_propagation"):
        kw["max_iteration"] = env.integer("max_iteration", None, None)
        bad.append(kw["max_iteration"] < 1)
    if algo == "kmeans":
        kw["model"] = env.choose("model", ["COP", "cop", "MPC", "", None])
        kw["tolerance"] = env.real("tolerance")
        bad += [kw["model"] != "COP", kw["tolerance"] < 0]
    elif algo == "hierarchical":
        kw["linkage"] = env.choose("linkage", ["ward", "average", "complete", "single", "Ward", "centroid", "", None])
        bad.append(kw["linkage"] not in ("ward", "average", "complete", "single"))
    elif algo == "spectral":
        kw["model"] = env.choose("model", ["SPEC", "CCSR", "", None])
        kw["nb_components"] = env.integer("nb_components", -4, 9) if env.choose("some", (False, True)) else None
        bad += [kw["model"] != "SPEC", kw["nb_components"] is not None and kw["nb_components"] < 2]
    elif algo == "mpckmeans":
        kw["model"] = env.choose("model", ["MPC", "COP", None])
        kw["w"] = env.real("w")
        bad += [kw["model"] != "MPC", kw["w"] < 0]
    elif algo == "affinity_propagation":
        kw["convergence_iteration"] = env.integer("convergence_iteration", None, None)
        kw["absolute_must_links"] = env.choose("aml", (True, False))
        bad.append(kw["convergence_iteration"] < 1)
    elif algo == "dbscan":
        kw["eps"] = env.real("eps")
        kw["min_samples"] = env.integer("min_samples", None, None)
        bad += [kw["eps"] <= 0, kw["min_samples"] < 1]
    v = verdict(env, fn, kw, env.any_of(bad), algo, keep=list(kw))
    if v is not None:
        env.check(type(v) is CTOR[algo], "%s: the factory returned a %s" % (algo, type(v).__name__))
        # an object that has not run publishes no result
        env.check(v.dict_of_predicted_clusters is None, "%s: a new object holds a result" % algo)


def call_checks(env, algo):
    """Arguments of cluster()."""
    if algo == "spectral":
        env.model_spectral = True
    ids = env.ids(3, "mix")
    m = managing_factory(list(ids))
    vecs = env.vectors(ids, "grid", grid=[[0, 0]], name="v0")
    vecs2 = env.vectors(ids, "grid", grid=[[0, 3]], name="v1")
    vecs[ids[1]] = vecs2[ids[1]]
    vecs3 = env.vectors(ids, "grid", grid=[[9, 1]], name="v2")
    vecs[ids[2]] = vecs3[ids[2]]
    opts = dict(max_iteration=3) if algo in ("kmeans", "mpckmeans", "affinity_propagation") else {}
    if algo == "dbscan":
        opts = dict(eps=2.0, min_samples=2)
    c = CTOR[algo](random_seed=1, **opts)
    what = env.choose("what", ["nb", "none", "manager", "vectors"])
    takes = algo not in ("affinity_propagation", "dbscan")
    with solver_stub(env, algo):
        if what == "nb":
            nb = env.integer("nb", -3, 7)
            st, v = env.call(c.cluster, m, vecs, nb)
            ok = bool(nb >= 2) if takes else False
        elif what == "none":
            st, v = env.call(c.cluster, m, vecs, None)
            ok = not takes
        elif what == "manager":
            bad = env.choose("bad", [None, [1], {}, "manager"])
            st, v = env.call(c.cluster, bad, vecs, 2 if takes else None)
            ok = False
        else:
            bad = env.choose("bad", [None, [vecs[d] for d in ids], 3])
            st, v = env.call(c.cluster, m, bad, 2 if takes else None)
            ok = False
    if ok:
        env.check(st == "ok", "%s.cluster refused valid arguments: %s %s" % (algo, type(v).__name__, v))
        well_formed(env, v, ids, algo)
        env.reach("accepted")
    else:
        env.check(st == "err" and isinstance(v, ValueError), "%s.cluster (%s) accepted invalid arguments or raised another error: %r" % (algo, what, v))
        env.reach("refused")


def sampling_params(env):
    cl = env.choose("clusters", [None, "same_cluster", "different_clusters", "same", "", "different_cluster"])
    di = env.choose("distance", [None, "closest_neighbors", "farthest_neighbors", "closest", "", "nearest"])
    wa = env.choose("wa", [True, False, None, 1, "True"])
    wi = env.choose("wi", [True, False, None, 0, "True"])
    kw = dict(clusters_restriction=cl, distance_restriction=di, without_added_constraints=wa, without_inferred_constraints=wi, random_seed=2)
    bad = cl in ("same", "", "different_cluster") or di in ("closest", "", "nearest") or not isinstance(wa, bool) or not isinstance(wi, bool)
    verdict(env, ClustersBasedConstraintsSampling, kw, bad, "sampling", keep=list(kw))


def sampling_call(env):
    ids = env.ids(3, "mix")
    m = managing_factory(list(ids))
    name = env.choose("algo", ["random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters"])
    s = sampling_factory(name, random_seed=1)
    vecs = env.vectors(ids, "free")
    labels = {d: 0 for d in ids}
    give_l = env.choose("labels", [labels, None, [0, 0, 0]]) if name != "random" else None
    give_v = env.choose("vectors", [vecs, None, 7]) if "est" in name else None
    which = env.choose("which", ["nb", "manager", "kind"])
    ok_rest = (name == "random" or isinstance(give_l, dict)) and ("est" not in name or isinstance(give_v, dict))
    if which == "nb":
        nb = env.integer("nb", -3, 5)
        st, v = env.call(s.sample, m, nb, clustering_result=give_l, vectors=give_v)
        if bool(nb < 0):
            env.check(st == "err" and isinstance(v, ValueError), "a negative number of pairs was accepted: %r" % (v,))
        elif bool(nb == 0):
            env.check(st == "ok" and v == [] or st == "err" and isinstance(v, ValueError) and not ok_rest, "asking for no pair gave %r" % (v,))
        elif ok_rest:
            env.check(st == "ok", "a valid sampling call was refused: %r" % (v,))
            env.reach("accepted")
        else:
            env.check(st == "err" and isinstance(v, ValueError), "%s without its inputs gave %r" % (name, v))
            env.reach("refused")
    elif which == "kind":
        bad = env.choose("bad", ["2", None, 1.5, [1]])
        st, v = env.call(s.sample, m, bad, clustering_result=labels, vectors=vecs)
        env.check(st == "err" and isinstance(v, ValueError), "nb_to_select=%r gave %r" % (bad, v))
    else:
        bad = env.choose("bad", [None, {}, [ids[0]]])
        st, v = env.call(s.sample, bad, 2, clustering_result=labels, vectors=vecs)
        env.check(st == "err" and isinstance(v, ValueError), "constraints_manager=%r gave %r" % (bad, v))


def factories(env):
    which = env.choose("which", ["clustering", "sampling", "managing"])
    good = {"clustering": list(CTOR), "sampling": ["random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters"],
            "managing": ["binary"]}[which]
    name = env.choose("name", good + ["", None, "KMEANS", "unknown", "random_in_different_clusters", "Binary"])
    if which == "clustering":
        st, v = env.call(clustering_factory, algorithm=name)
    elif which == "sampling":
        st, v = env.call(sampling_factory, algorithm=name)
    else:
        st, v = env.call(managing_factory, list_of_data_IDs=["b", "a"], manager=name)
    if name in good:
        env.check(st == "ok", "%s factory refused %r: %r" % (which, name, v))
        if which == "clustering":
            env.check(type(v) is CTOR[name], "%s factory returned %s for %r" % (which, type(v).__name__, name))
        elif which == "sampling":
            exp = {"random": (None, None), "random_in_same_cluster": ("same_cluster", None), "farthest_in_same_cluster": ("same_cluster", "farthest_neighbors"),
                   "closest_in_different_clusters": ("different_clusters", "closest_neighbors")}[name]
            env.check((v.clusters_restriction, v.distance_restriction) == exp, "sampler %r is configured as %r" % (name, (v.clusters_restriction, v.distance_restriction)))
        else:
            env.check(sorted(v.get_list_of_managed_data_IDs()) == ["a", "b"], "managing factory lost IDs")
        env.reach("accepted")
    else:
        env.check(st == "err" and isinstance(v, ValueError), "%s factory accepted %r: %r" % (which, name, v))
        env.reach("refused")


# -- C27 ---------------------------------------------------------------------------------------------------------
def frequency(env, n, lab):
    ids = env.ids(n, "mix") if n else []
    r = {d: env.label("lab%d" % i, lab[0], lab[1]) for i, d in enumerate(ids)}
    before = list(r.items())
    st, f = env.call(compute_clusters_frequency, r)
    env.check(st == "ok", "compute_clusters_frequency failed: %r" % (f,))
    env.check(len(r) == n and all(a == b and x is y for (a, x), (b, y) in zip(before, r.items())), "the clustering result was changed")
    if n == 0:
        env.check(f == {}, "frequencies of an empty result: %r" % (f,))
        env.reach("empty")
        return
    keys = list(f)
    for a, b in zip(keys, keys[1:]):
        env.check(a < b, "labels are not in increasing order: %r" % (keys,))
    for k in keys:
        c = sum(1 for v in r.values() if bool(v == k))
        env.check(c > 0, "a label that does not occur is reported")
        env.check(bool(env.close(f[k], c / n)), "frequency %r of a label that occurs %d times among %d IDs" % (f[k], c, n))
    for v in r.values():
        env.check(any(bool(v == k) for k in keys), "a label that occurs is not reported")
    env.check(abs(sum(float(x) for x in f.values()) - 1) < 1e-9, "the frequencies sum to %r" % (sum(f.values()),))
    if len(keys) > 1:
        env.reach("several")


# -- C28 / C29 : language model stand-in -----------------------------------------------------------------------------
PUNCT = ".,;:!¡?¿…•(){}[]«»^`'\"\\/|-_#&~@"


try:
    from engine.sym import Unsupported
except ImportError:        # replay
    class Unsupported(BaseException):
        pass


class StandIn:
    """What a stand-in does not know is no verdict about the code."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("language model stand-in: attribute %s" % name)


class Lexeme(StandIn):
    is_space = property(lambda s: s.text.isspace())
    is_punct = is_quote = property(lambda s: s.text in PUNCT)

    def __init__(self, text, stops):
        self.text = self.orth_ = text
        self.is_stop = text.lower().strip(" 0123456789") in stops


class Vocab(StandIn):
    stops = {"être", "cela", "texte"}

    def __getitem__(self, text):
        return Lexeme(text, self.stops)


class Token(StandIn):
    def __init__(self, env, name, text, lemma):
        self._env, self._name, self.text, self.lemma_ = env, name, text, lemma
        self.text_with_ws = text + " "
        self._memo = {}

    def _flag(self, key):
        if key not in self._memo:
            self._memo[key] = self._env.boolean("%s.%s" % (self._name, key))
        return self._memo[key]

    is_space = property(lambda s: s._flag("space"))
    is_punct = property(lambda s: s._flag("punct"))
    is_quote = property(lambda s: s._flag("quote"))
    is_stop = property(lambda s: s._flag("stop"))

    def depth(self):
        if "depth" not in self._memo:
            self._memo["depth"] = self._env.integer("%s.depth" % self._name, 0, 3)
        return self._memo["depth"]

    @property
    def ancestors(self):
        return iter([self] * int(self.depth()))

    # the rest of what a language model says about a token follows from the above
    @property
    def head(self):
        d = int(self.depth())
        return self if d == 0 else Plain(self.text, self.lemma_, depth=d - 1)

    dep_ = property(lambda s: "ROOT" if int(s.depth()) == 0 else "dep")
    orth_ = property(lambda s: s.text)
    lower_ = property(lambda s: s.text.lower())
    whitespace_ = " "

    def __str__(self):
        return self.text

    __repr__ = __str__

    def __len__(self):
        return len(self.text)


class Doc(StandIn, list):
    vector = None

    @property
    def text(self):
        return " ".join(t.text for t in self)


def piped(nlp):
    """The stream interface of a language model."""
    def pipe(texts, as_tuples=False, **k):
        for t in texts:
            yield (nlp(t[0]), t[1]) if as_tuples else nlp(t)
    return pipe


def disabled(kw):
    """Components a call of spacy.load leaves out."""
    out = set()
    for key in ("disable", "exclude"):
        v = kw.get(key) or []
        out |= {v} if isinstance(v, str) else set(v)
    return out


class model_stub:
    """spacy.load replaced by a stand-in language model (no model is installed in this sandbox)."""

    def __init__(self, load):
        self.load = load

    def __enter__(self):
        import spacy
        real = spacy.load
        self.saved = [(spacy, "load", real)]
        for name, mod in list(sys.modules.items()):
            if mod is not None and name.startswith("cognitivefactory."):
                for k, v in list(vars(mod).items()):
                    if v is real:
                        self.saved.append((mod, k, v))
        for mod, k, _ in self.saved:
            setattr(mod, k, self.load)
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)
        return False


TEXTS = {"k2": "Où-est,LA (gare) d'ÉTÉ?", "": "UN@test_#~|/\\ «oui» ^ […] • ¡Sí! ¿Ñ? {x}.", "a1": "Dix-huit; \"deux\" : `un` & cœur!"}
WORDS = [("été", "être"), (" Ça", "cela "), ("ﬁn ", "finir")]


def strip_accents(t):
    return "".join(ch for ch in unicodedata.normalize("NFKD", t) if not unicodedata.combining(ch))


class Plain(Token):
    """A token with fixed attributes."""

    def __init__(self, text, lemma, stop=False, depth=0):
        Token.__init__(self, None, None, text, lemma)
        self._memo = dict(space=False, punct=False, quote=False, stop=stop, depth=depth)


ALPHABET = ["a", "B", "É", "ç", "œ", "ﬁ", "Ñ", "9", "%", "$", "=", "*", " ", "\t", "\n", "\u00a0", "ß", "İ", "°"]


def preprocessing_chars(env, nchar, alphabet=None):
    """One text of arbitrary characters; the language model splits it at white space."""
    alpha = [c for c in dict.fromkeys(ALPHABET + list(PUNCT))]
    text = "".join(alpha[int(env.integer("c%d" % i, 0, len(alpha) - 1))] for i in range(nchar))
    key = env.choose("key", ["k", ""])
    t = text.lower()
    for ch in PUNCT:
        t = t.replace(ch, " ")

    def load(name, **k):
        def nlp(x):
            env.check(x == t, "the language model was given %r for the text %r" % (x, text))
            return Doc(Plain(w, w + "~") for w in x.split())
        nlp.pipe = piped(nlp)
        return nlp
    with model_stub(load):
        st, r = env.call(preprocess, {key: text}, spacy_language_model="xx_test")
    env.check(st == "ok", "preprocess failed: %s %s" % (type(r).__name__, r))
    env.check(r == {key: strip_accents(" ".join(t.split()))}, "preprocessed text of %r is %r" % (text, r))
    env.reach("kept" if t.split() else "dropped")


def preprocessing(env, nkeys, ntok, fixed=0):
    """`fixed`: number of further texts with fixed tokens between the first and the others."""
    keys = list(TEXTS)[:nkeys]
    texts = {keys[0]: TEXTS[keys[0]]}
    for i in range(fixed):
        texts["f%d" % i] = "Texte numéro-%d." % (i % 7)
    texts.update({k: TEXTS[k] for k in keys[1:]})
    keys = list(texts)
    before = dict(texts)
    opts = {o: env.choose(o, (False, True)) for o in ("apply_stopwords_deletion", "apply_parsing_filter", "apply_lemmatization")}
    expected = {}
    docs = {}
    for i, k in enumerate(keys):
        t = texts[k].lower()
        for ch in PUNCT:
            t = t.replace(ch, " ")
        if k in TEXTS:
            docs[t] = Doc(Token(env, "tok%d_%d" % (i, j), WORDS[(i + j) % 3][0], WORDS[(i + j) % 3][1] + str(i)) for j in range(ntok))
        else:
            docs[t] = Doc(Plain(w, w + "er", stop=w == "texte", depth=d) for d, w in enumerate(t.split()))
        expected[k] = t
    calls = []

    class Model(StandIn):
        vocab = Vocab()

        def __init__(self, name):
            self.lang = name[:2]

        def __call__(self, text):
            env.check(text in docs or text == "zz", "the language model was given %r, which is not a lower-cased text without punctuation" % (text,))
            return docs[text] if self.lang == "xx" else Doc([Plain("autre", "autres")])

        def pipe(self, texts, **k):
            return piped(self)(texts, **k)

    def load(name, **k):
        calls.append((name, k))
        return Model(name)
    with model_stub(load):
        if env.params.get("_earlier"):     # other models, options and texts before: nothing of that may stay
            env.call(preprocess, texts, spacy_language_model="yy_test", **opts)
            env.call(preprocess, texts, spacy_language_model="xx_test", **{o: not v for o, v in opts.items()})
            env.call(preprocess, {k: "zz" for k in texts}, spacy_language_model="yy_test")
        st, r = env.call(preprocess, texts, spacy_language_model="xx_test", **opts)
    env.check(st == "ok", "preprocess failed: %s %s" % (type(r).__name__, r))
    for name, kw in calls:
        env.check(not disabled(kw) & {"parser", "tagger", "lemmatizer", "morphologizer", "attribute_ruler", "tok2vec"},
                  "a component the result needs is disabled: %r" % (kw,))
    env.check(list(r) == keys, "keys %r, expected %r" % (list(r), keys))
    env.check(texts == before, "the dictionary of texts was changed")
    for k in keys:
        out = []
        for tok in docs[expected[k]]:
            if tok.is_space or tok.is_punct or tok.is_quote:
                continue
            if opts["apply_stopwords_deletion"] and tok.is_stop:
                continue
            if opts["apply_parsing_filter"] and bool(tok.depth() > 1):
                continue
            out.append((tok.lemma_ if opts["apply_lemmatization"] else tok.text).strip())
        exp = strip_accents(" ".join(out))
        env.check(r[k] == exp, "preprocessed text of %r is %r, expected %r" % (k, r[k], exp))
        env.reach("kept" if out else "dropped")


def preprocessing_missing(env):
    def load(name, **k):
        raise OSError("[E050] Can't find model '%s'." % name)
    which = env.choose("which", ["preprocess", "vectorize", "type"])
    with model_stub(load):
        if which == "preprocess":
            st, v = env.call(preprocess, {"a": "b"}, spacy_language_model="xx")
        elif which == "vectorize":
            st, v = env.call(vectorize, {"a": "b"}, vectorizer_type="spacy", spacy_language_model="xx")
        else:
            st, v = env.call(vectorize, {"a": "b", "c": "b"}, vectorizer_type=env.choose("type", ["TFIDF", "", None, "word2vec"]))
    env.check(st == "err" and isinstance(v, ValueError), "%s with a missing model or unknown type gave %r" % (which, v))
    env.reach("refused")


CORPUS = ["le chat dort", "le chien dort bien", "le chat mange le chien", "une autre phrase", "", "Le chat dort !", "LE CHAT DORT", "le  chat dort "]


def vectorization(env, n, which):
    ids = env.ids(n, "mix")
    given = list(env.params.get("_texts") or ())
    given += [None] * (n - len(given))
    pick = [int(env.integer("text%d" % i, 0, len(CORPUS) - 1)) if given[i] is None else given[i] for i in range(n)]
    texts = {d: CORPUS[pick[i]] for i, d in enumerate(ids)}
    before = dict(texts)
    if which == "tfidf":
        from sklearn.feature_extraction.text import TfidfVectorizer
        st0, ref = env.call(TfidfVectorizer(analyzer="word", ngram_range=(1, 3), min_df=2).fit_transform, [texts[d] for d in ids])
        if st0 == "err":
            return     # too few common words for any vocabulary
        if env.params.get("_earlier"):
            env.call(vectorize, {d: CORPUS[0] for d in ids})
        st, r = env.call(vectorize, texts)
        rows = {d: ref[i].toarray() for i, d in enumerate(ids)}
    else:
        vec = {t: np.array([i + 1.0, -i, 0.5], dtype="float32") for i, t in enumerate(CORPUS)}

        class Model(StandIn):
            vocab = Vocab()

            def __init__(self, name):
                self.lang = name[:2]

            def __call__(self, text):
                d = Doc()
                env.check(text in vec, "the language model was given %r" % (text,))
                d.vector = vec[text] * (1 if self.lang == "xx" else 3)
                return d

            def pipe(self, texts, **k):
                return piped(self)(texts, **k)

        def load(name, **k):
            return Model(name)
        with model_stub(load):
            if env.params.get("_earlier"):     # other models and texts before: nothing of that may stay
                env.call(vectorize, texts, vectorizer_type="spacy", spacy_language_model="yy_test")
                env.call(vectorize, {d: CORPUS[1] for d in ids}, vectorizer_type="spacy", spacy_language_model="xx_test")
            st, r = env.call(vectorize, texts, vectorizer_type="spacy", spacy_language_model="xx_test")
        rows = {d: vec[texts[d]].reshape(1, -1) for d in ids}
    env.check(st == "ok", "vectorize failed: %s %s" % (type(r).__name__, r))
    env.check(list(r) == ids, "IDs of the vectors %r, expected %r" % (list(r), ids))
    env.check(texts == before, "the dictionary of texts was changed")
    for d in ids:
        got = r[d].toarray()
        env.check(got.shape == rows[d].shape and np.allclose(got, rows[d], atol=1e-9), "the vector of %r is not the one of its text" % (str(d),))
    env.reach(which)


# -- C30 ---------------------------------------------------------------------------------------------------------
def annotate(env, n, order, algos, nbs, batch=1, vec="line", iters=2, grid=None):
    ids = env.ids(n, order)
    truth, used = {}, 0
    given = list(env.params.get("_truth") or ())
    given += [None] * (n - len(given))
    for i, d in enumerate(ids):
        truth[d] = env.choose("g%d" % i, range(used + 1)) if given[i] is None else given[i]
        used = max(used, truth[d] + 1)
    m = managing_factory(list(ids))
    s = sampling_factory("random", random_seed=env.seed())
    steps = 0
    while True:
        complete = m.check_completude_of_constraints()
        st, got = env.call(s.sample, m, batch)
        env.check(st == "ok", "sampling failed during annotation: %r" % (got,))
        if complete:
            env.check(got == [], "a pair is proposed although the constraints are complete: %r" % (got,))
            break
        env.check(len(got) >= 1, "no pair is proposed although the constraints are incomplete")
        for a, b in got:
            t = ML if truth[a] == truth[b] else CL
            st, v = env.call(m.add_constraint, a, b, t)
            env.check(st == "ok" and v is True, "an annotation that follows the ground truth was refused: %r" % (v,))
        steps += 1
        env.check(steps <= n * (n - 1) // 2, "annotation does not end")
    for a, b in combinations(ids, 2):
        exp = ML if truth[a] == truth[b] else CL
        env.check(m.get_inferred_constraint(a, b) == exp, "complete constraints disagree with the ground truth")
    algo = env.choose("algo", algos)
    vecs = env.vectors(ids, vec if algo == "kmeans" else ("free" if vec == "line" else vec), grid=grid)
    nb = env.choose("nb", nbs)
    c = clustering_factory(algo, random_seed=env.seed("seed2"), **(dict(max_iteration=iters) if algo == "kmeans" else {}))
    r = run(env, c, m, {d: vecs[d] for d in ids}, nb, algo)
    for a, b in combinations(ids, 2):
        same = bool(r[a] == r[b])
        env.check(same == (truth[a] == truth[b]), "%s with complete constraints does not return the ground truth" % algo)
    env.reach(algo)
    if steps < n * (n - 1) // 2:
        env.reach("saved by inference")
