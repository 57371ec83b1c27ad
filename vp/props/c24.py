"""C24: TF-IDF vectors against an independent computation."""

import math
import re
from collections import Counter

import numpy as np

from cognitivefactory.interactive_clustering.utils.vectorization import vectorize

from vp.engine import Test, require
from vp.mgr import gen_ids

ID = "C24"
RULE = "independent TF-IDF from the formula; non-trivial = at least three texts, an n-gram of two words or more kept and some n-gram discarded"
ASSUMPTIONS = ["at least one n-gram is shared by two texts (scikit-learn refuses an empty vocabulary)"]
WORDS = [
    "carte", "Carte", "visa", "perte", "paiement", "crédit", "CRÉDIT", "de", "a", "je", "une", "x1", "42", "7", "œuf", "é", "ça", "l_a", "_", "été",
    "naïve", "the", "of", "payer", "payé", "aa", "aaa", "日本", "日", "ﬁn", "straße", "ab",
    "credit", "ete", "naive", "paye", "fin", "strasse", "STRASSE", "oeuf", "ca", "e\u0301te\u0301", "x²", "x2", "İstanbul", "don't", "ab'cd", "Ωmega", "ωmega", "½½", "٣٤", "34",
]
ALPHABET = "aéeEÉœß1²_日ıIñn\u0301"
GLUE = [" ", " ", " ", "  ", ", ", "-", "'", ". ", "\n", "\t", " ? ", "/"]


def gen(d):
    n = d.int(2, 8)
    pool = d.sample(WORDS, d.int(2, 10))
    if d.bool(1, 4):
        pool = ["".join(d.choice(ALPHABET) for _ in range(d.int(1, 3))) for _ in range(d.int(3, 10))]
    texts = []
    for _ in range(n):
        parts = []
        for _ in range(d.weighted([(1, 0), (5, d.int(1, 6)), (3, d.int(1, 14))])):
            parts += [d.choice(pool), d.choice(GLUE)]
        texts.append("".join(parts))
    for _ in range(d.int(0, 2)):
        texts.append(d.choice(texts))
    if d.bool(1, 2):
        texts[-1] = texts[0] + " carte"
    ids = gen_ids(d, len(texts), len(texts))
    return {"ids": ids, "texts": texts[: len(ids)], "order": d.shuffle(range(len(ids))), "number": d.bool(1, 8)}


def gen_big(d):
    """Corpora of realistic size: many texts, many n-grams, frequent and rare words."""
    n = d.int(9, 60)
    size = d.choice([5, 30, 200, 2000])
    words = d.weighted([(3, d.int(3, 12)), (1, d.int(20, 60))])
    everywhere = d.choice(["", "carte ", "je veux "])
    texts = [everywhere + " ".join(f"{'mot' if d.bool(3, 4) else 'Été'}{min(d.int(0, size), d.int(0, size))}" for _ in range(d.int(1, words))) for _ in range(n)]
    if d.bool(1, 4):  # a long text
        texts[d.int(0, n - 1)] = " ".join(f"mot{d.int(0, size)}" for _ in range(d.choice([250, 700, 2500])))
    if d.bool(1, 3):  # every n-gram is shared
        texts = texts + texts
    ids = [f"t{i}" for i in range(len(texts))] if d.bool() else [f"{i:03d}" for i in range(len(texts), 0, -1)]
    return {"ids": ids, "texts": texts, "order": d.shuffle(range(len(ids))), "number": False}


def grams(text):
    words = re.findall(r"\b\w\w+\b", text.lower())
    return Counter(" ".join(words[i : i + k]) for k in (1, 2, 3) for i in range(len(words) - k + 1))


def check(case, ctx):
    texts = dict(zip(case["ids"], case["texts"]))
    if case["number"]:
        texts[case["ids"][0]] = 4242  # values are taken as strings
    counts = {x: grams(str(t)) for x, t in texts.items()}
    df = Counter(g for c in counts.values() for g in c)
    kept = sorted(g for g in df if df[g] >= 2)
    if not kept:
        return
    vectors = vectorize(dict_of_texts=texts, vectorizer_type="tfidf")
    require(isinstance(vectors, dict) and list(vectors) == list(texts), f"keys {list(vectors)}, expected {list(texts)}")
    dense = {}
    for x, v in vectors.items():
        require(v.shape == (1, len(kept)), f"vector of {x!r} has shape {v.shape}, there are {len(kept)} n-grams in at least two texts: {kept}")
        dense[x] = np.asarray(v.toarray()).ravel()
    idf = {g: math.log((1 + len(texts)) / (1 + df[g])) + 1 for g in kept}
    want = {}
    for x in texts:
        raw = np.array([counts[x][g] * idf[g] for g in kept])
        norm = math.sqrt((raw**2).sum())
        want[x] = raw / norm if norm else raw
    # Components may be in any order: match them.
    left = [np.array([want[x][k] for x in texts]) for k in range(len(kept))]
    if len(kept) > 60:  # matched by their sorted sums and, below, by the similarities
        sums = sorted(sum(dense[x][k] for x in texts) for k in range(len(kept)))
        require(np.allclose(sums, sorted(float(c.sum()) for c in left), atol=1e-8, rtol=0), "the components are not those of the n-grams")
    for k in range(len(kept) if len(kept) <= 60 else 0):
        column = np.array([dense[x][k] for x in texts])
        match = next((i for i, other in enumerate(left) if np.allclose(column, other, atol=1e-8, rtol=0)), None)
        require(match is not None, f"a component has values {column} over the texts {texts}, which no n-gram of {kept} has")
        left.pop(match)
    for x in texts:
        for y in list(texts)[:12]:
            require(abs(float(dense[x] @ dense[y]) - float(want[x] @ want[y])) < 1e-9, f"similarity of {x!r} and {y!r} is {dense[x] @ dense[y]}, expected {want[x] @ want[y]}")
    items = list(texts.items())
    shuffled = vectorize(dict_of_texts=dict(items[i] for i in case["order"]), vectorizer_type="tfidf")
    require(list(shuffled) == [items[i][0] for i in case["order"]], "keys are not in the order of the texts")
    for x in texts:
        require(np.allclose(shuffled[x].toarray().ravel(), dense[x], atol=1e-12), f"the vector of {x!r} depends on the order of the texts")
    default = vectorize(dict_of_texts=texts)
    require(all((default[x].toarray() == dense[x]).all() for x in texts), "tf-idf is not the default")
    ctx.nontrivial(len(texts) >= 3 and any(" " in g for g in kept) and len(kept) < len(df))
    ctx.label("zero_vector", any(not d.any() for d in dense.values()))


TESTS = [
    Test("big", gen_big, check, rand=500, hyp=0, rule="9 to 120 texts, up to 10000 n-grams"),
    Test("tfidf", gen, check, rand=6000, hyp=250),
]
