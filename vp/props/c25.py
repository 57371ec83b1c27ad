"""C25: spaCy vectors are those of the language model, text by text."""

import numpy as np
import spacy

from cognitivefactory.interactive_clustering.utils.vectorization import vectorize

from vp.engine import Test, require
from vp.mgr import gen_ids
from vp.txt import DIM, model_path, vector_of

ID = "C25"
RULE = "generated language model with known word vectors; non-trivial = at least two texts, one with several words known to the model and one word unknown"
ASSUMPTIONS = ["downloaded language models are not available offline: models are generated with spaCy"]
WORDS = ["carte", "Carte", "CARTE", "visa", "perte", "été", "Été", "a", "un", "42", "x", "zz", "crédit", "trop", "bas", "paiement", "ou", "où", "abc", "œuf", "niño", "Visa", "VISA", "Perte", "PERTE", "A", "Un", "X", "CRÉDIT", "Crédit", "Bas", "OU", "Ou"]

KNOWN = set(WORDS)
for _ in range(5):
    KNOWN |= {v for w in KNOWN for v in (w.lower(), w.upper(), w.swapcase(), w.capitalize())}
KNOWN = sorted(KNOWN)


def gen(d, top=5, words=7):
    n = d.int(1, top)
    texts = [" ".join(d.choice(WORDS) for _ in range(d.weighted([(1, 0), (6, d.int(1, words))]))) for _ in range(n)]
    if n > 1 and d.bool(1, 3):
        texts[-1] = texts[0]
    for i in range(1, n):  # near copies of the text before: they must not be confused
        if d.bool(1, 3):
            words = texts[i - 1].split()
            how = d.choice(["lower", "upper", "swap", "capital", "reverse", "drop", "double"])
            if how == "reverse":
                words = words[::-1]
            elif how == "drop":
                words = words[1:]
            elif how == "double":
                words = words + words[:1]
            else:
                words = [{"lower": w.lower(), "upper": w.upper(), "swap": w.swapcase(), "capital": w.capitalize()}[how] for w in words]
            texts[i] = " ".join(words)
    for i in range(n):  # whitespace and punctuation are tokens of the model too
        if d.bool(1, 4):
            parts = texts[i].split(" ")
            texts[i] = d.choice(["", " ", "  ", "\n", "\t "]) + "".join(w + d.choice([" ", "  ", "\n", ", ", ". ", " \n "]) for w in parts)
    if d.bool(1, 8):  # a long text
        texts[d.int(0, n - 1)] = " ".join(d.choice(WORDS) for _ in range(d.choice([120, 300, 900])))
    bad = d.choice(["TFIDF", "spaCy", "", "tf-idf", "word2vec", "spacy ", "None"])
    missing = d.choice(["no_such_model", "fr_core_news_xx", "/nonexistent/model", ""])
    return {"ids": gen_ids(d, n, n) if top == 5 else [f"t{i}" for i in range(n)], "texts": texts, "bad": bad, "missing": missing, "order": d.shuffle(range(n)), "number": d.bool(1, 6)}


def refused(what, **arguments):
    try:
        vectorize(**arguments)
    except ValueError:
        return
    require(False, f"{what} was not refused")


def check(case, ctx):
    texts = dict(zip(case["ids"], case["texts"]))
    if case["number"]:
        texts[case["ids"][0]] = 42
    model = model_path("vec", ctx.scratch, KNOWN)
    nlp = spacy.load(model)
    vectors = vectorize(dict_of_texts=texts, vectorizer_type="spacy", spacy_language_model=model)
    require(isinstance(vectors, dict) and list(vectors) == list(texts), f"keys {list(vectors)}, expected {list(texts)}")
    for x, text in texts.items():
        words = str(text).split()
        want = np.zeros(DIM)
        for word in words:
            value = vector_of(word)
            want = want + (0 if value is None else value)
        want = want / max(1, len(words))
        if " ".join(words) != str(text) or any(not w.isalnum() for w in words):
            want = nlp(str(text)).vector
            ctx.label("whitespace_or_punctuation")
        require(vectors[x].shape == (1, DIM), f"vector of {x!r} has shape {vectors[x].shape}")
        got = np.asarray(vectors[x].toarray()).ravel()
        require(np.allclose(got, want, atol=1e-5), f"vector of {str(text)[:300]!r} is {got}, expected {want}")
    items = list(texts.items())
    some = dict(items[i] for i in case["order"][: 1 + len(items) // 2])
    alone = vectorize(dict_of_texts=some, vectorizer_type="spacy", spacy_language_model=model)
    for x in some:
        require(np.allclose(alone[x].toarray(), vectors[x].toarray(), atol=1e-6), f"the vector of {x!r} depends on the other texts")
    refused(f"vectorizer type {case['bad']!r}", dict_of_texts=texts, vectorizer_type=case["bad"], spacy_language_model=model)
    refused(f"language model {case['missing']!r}", dict_of_texts=texts, vectorizer_type="spacy", spacy_language_model=case["missing"])
    known = [w for t in texts.values() for w in str(t).split()]
    ctx.nontrivial(len(texts) > 1 and any(vector_of(w) is None for w in known) and any(vector_of(w) is not None for w in known))


TESTS = [
    Test("many", lambda d: gen(d, 70, d.choice([4, 30])), check, rand=40, hyp=0, rule="up to 70 texts of up to 30 words"),
    Test("spacy", gen, check, rand=400, hyp=30),
]
