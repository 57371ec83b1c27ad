"""C26: preprocessing against a reference written from the documentation."""

from cognitivefactory.interactive_clustering.utils.preprocessing import preprocess

from vp.engine import Test, require
from vp.mgr import gen_ids
from vp.txt import PARSE, fold, gen_text, heads_of, lemma_of, model_path, stop_words, strip_accents, text_of, words_of

ID = "C26"
RULE = "reference built from the generated pieces (words, punctuation, whitespace), with generated language models whose parse, lemmas and stop words are known; non-trivial = punctuation or capitals or accents present, and (with options) some word removed or lemmatized"
ASSUMPTIONS = ["downloaded language models are not available offline: models are generated with spaCy (parser and lemmatizer with known answers)", "words are those that spaCy's tokenizer keeps in one piece"]


def gen(d):
    kind = d.choice(["fr", "en", "xx"])
    n = d.int(1, 8)
    return {
        "kind": kind,
        "ids": gen_ids(d, n, n),
        "texts": [gen_text(d, kind) for _ in range(n)],
        "flags": [d.bool(), d.bool(), d.bool()] if d.bool(3, 4) else [False, False, False],
        "parse": d.int(0, 500),
        "order": d.shuffle(range(n)),
        "number": d.bool(1, 8),
        "then": d.choice(["alone", "plain"]),
    }


def gen_many(d):
    """More and longer texts."""
    kind = d.choice(["fr", "en", "xx"])
    n = d.choice([3, 20, 40, 70])
    return {
        "kind": kind, "ids": [f"t{i}" for i in range(n)], "texts": [gen_text(d, kind, 150 if n == 3 else 12) for _ in range(n)],
        "flags": [d.bool(), d.bool(), d.bool()], "parse": d.int(0, 500), "order": d.shuffle(range(n)), "number": False, "then": d.choice(["alone", "plain"]),
    }


def depth(heads, i):
    steps = 0
    while heads[i] != i:
        i = heads[i]
        steps += 1
    return steps


def reference(pieces, kind, flags, parse):
    stop, parsing, lemma = flags
    tokens = words_of(pieces)
    loose = [fold(p[1]).strip() for p in pieces if p[0] == "l"]
    texts = []
    for t in tokens:  # loose punctuation takes part in the parse
        texts.append(loose.pop(0) if t is None else t)
    heads = heads_of(texts, parse)
    out = []
    for i, t in enumerate(tokens):
        if t is None:
            continue
        if stop and t in stop_words(kind):
            continue
        if parsing and depth(heads, i) > 1:
            continue
        out.append(lemma_of(t) if lemma else t)
    return strip_accents(" ".join(out))


def call(texts, flags, model):
    return preprocess(
        dict_of_texts=texts, apply_stopwords_deletion=flags[0], apply_parsing_filter=flags[1], apply_lemmatization=flags[2], spacy_language_model=model
    )


def check(case, ctx):
    kind, flags = case["kind"], case["flags"]
    model = model_path(kind, ctx.scratch)
    PARSE["seed"] = case["parse"]
    pieces = dict(zip(case["ids"], case["texts"]))
    texts = {x: text_of(p) for x, p in pieces.items()}
    if case["number"]:
        texts[case["ids"][0]] = 42
        pieces[case["ids"][0]] = [["w", "42"]]
    out = call(texts, flags, model)
    require(isinstance(out, dict) and list(out) == list(texts), f"keys {list(out)}, expected {list(texts)}")
    for x in texts:
        want = reference(pieces[x], kind, flags, case["parse"])
        require(out[x] == want, f"{texts[x]!r} becomes {out[x]!r}, expected {want!r} (stop words, parsing, lemmas: {flags}, language {kind})")
    plain = out
    if case["then"] == "alone":
        require_alone(case, texts, out, model)
    else:
        plain = require_plain(case, pieces, texts, model)
    rough = any(p[0] in "pl" or (p[0] == "w" and p[1] != strip_accents(p[1].lower())) for q in pieces.values() for p in q)
    ctx.nontrivial(rough and (not any(flags) or case["then"] == "alone" or out != plain))
    for name, flag in zip(("stop", "parse", "lemma"), flags):
        ctx.label(name, flag)


def require_alone(case, texts, out, model):
    flags = case["flags"]
    items = list(texts.items())
    some = dict(items[i] for i in case["order"][: 1 + len(items) // 2])
    alone = call(some, flags, model)
    require(list(alone) == list(some), "keys are not in the order of the texts")
    for x in some:
        require(alone[x] == out[x], f"{texts[x]!r} becomes {alone[x]!r} with other texts around, {out[x]!r} before")


def require_plain(case, pieces, texts, model):
    kind = case["kind"]
    plain = preprocess(dict_of_texts=texts, spacy_language_model=model)
    for x in texts:
        require(plain[x] == reference(pieces[x], kind, [False] * 3, case["parse"]), f"by default {texts[x]!r} becomes {plain[x]!r}")
    again = preprocess(dict_of_texts=plain, spacy_language_model=model)
    require(again == plain, f"preprocessing twice differs: {plain} -> {again}")
    return plain


def gen_missing(d):
    return {"name": d.choice(["no_such_model", "fr_core_news_xx", "/nonexistent/model", "en_core_web_zz", ""]), "flags": [d.bool(), d.bool(), d.bool()]}


def check_missing(case, ctx):
    try:
        call({"0": "a b"}, case["flags"], case["name"])
    except ValueError:
        ctx.nontrivial()
        return
    require(False, f"the language model {case['name']!r} is not installed but was not refused")


TESTS = [
    Test("texts", gen, check, rand=360, hyp=24),
    Test("many", gen_many, check, rand=40, hyp=0, rule="up to 70 texts, or texts of up to 150 words"),
    Test("missing", gen_missing, check_missing, rand=30, hyp=5),
]
