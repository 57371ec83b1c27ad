"""Shared generators and language models for text checks."""

from __future__ import annotations

import os
import unicodedata

import numpy as np

from vp.engine import Draw

_MODELS: dict = {}
PARSE = {"seed": 0}  # state of the generated parser, set by the checks
DIM = 5


# --------------------------------------------------------------------------
# Generated language models
# --------------------------------------------------------------------------
def heads_of(words: list, seed: int) -> list:
    """A dependency forest over tokens: head[i] <= i, head[i] == i for roots."""
    heads = []
    for i, word in enumerate(words):
        value = (seed * 1000003 + i * 7919 + len(word) * 31 + sum(map(ord, word))) % 1009
        heads.append(i if i == 0 or value % 5 == 0 else value % i)
    return heads


def lemma_of(word: str) -> str:
    """A known lemma, different from the word for most words."""
    if len(word) > 4 and sum(map(ord, word)) % 3:
        return word[:-1]
    if word[-1:] in "aeiou":
        return word + "r"
    if word[:1] == "é":
        return "è" + word
    return word


def vector_of(word: str):
    """Known vector of a word, None if the word is out of vocabulary."""
    total = sum((i + 1) * ord(c) for i, c in enumerate(word))
    if total % 4 == 0:
        return None
    return np.array([((total * (k + 3)) % 17) - 8 for k in range(DIM)], dtype="float32") / 4


def _register():
    from spacy.language import Language
    from spacy.tokens import Doc

    if not Language.has_factory("vp_parser"):

        @Language.component("vp_parser")
        def vp_parser(doc):
            words = [t.text for t in doc]
            solid = [i for i, w in enumerate(words) if not w.isspace()]
            inner = heads_of([words[i] for i in solid], PARSE["seed"])
            heads = list(range(len(words)))
            for position, i in enumerate(solid):
                heads[i] = solid[inner[position]]
            last = 0
            for i in range(len(words)):  # whitespace is attached to the word before it
                if words[i].isspace():
                    heads[i] = last
                else:
                    last = i
            return Doc(
                doc.vocab,
                words=words,
                spaces=[bool(t.whitespace_) for t in doc],
                heads=heads,
                deps=["ROOT" if h == i else "dep" for i, h in enumerate(heads)],
            )

        @Language.component("vp_lemmatizer")
        def vp_lemmatizer(doc):
            for token in doc:
                token.lemma_ = lemma_of(token.text)
            return doc


def model_path(kind: str, scratch: str, words=()) -> str:
    """Folder of a generated language model ("fr", "en", "xx" for texts; "vec" for vectors)."""
    key = (kind, os.getpid())
    if key not in _MODELS:
        import spacy

        _register()
        nlp = spacy.blank("xx" if kind == "vec" else kind)
        if kind == "vec":
            known = [w for w in words if vector_of(w) is not None]
            nlp.vocab.reset_vectors(width=DIM)
            for word in known:
                nlp.vocab.set_vector(word, vector_of(word))
        else:
            nlp.add_pipe("vp_parser", name="parser")
            nlp.add_pipe("vp_lemmatizer", name="lemmatizer")
        path = os.path.join(scratch, f"model_{kind}_{os.getpid()}")
        nlp.to_disk(path)
        _MODELS[key] = path
    _register()
    return _MODELS[key]


def stop_words(kind: str) -> set:
    if kind == "fr":
        from spacy.lang.fr.stop_words import STOP_WORDS
    elif kind == "en":
        from spacy.lang.en.stop_words import STOP_WORDS
    else:
        return set()
    return {w.lower() for w in STOP_WORDS}


# --------------------------------------------------------------------------
# Texts
# --------------------------------------------------------------------------
WORDS = [
    "carte", "paiement", "perte", "signaler", "crédit", "procédure", "avalée", "visa", "plafond", "où", "ou", "à", "a", "la", "de",
    "le", "un", "une", "the", "and", "of", "is", "not", "card", "lost", "été", "ete", "noël", "garçon", "naïve", "sœur", "straße",
    "niño", "über", "ångström", "œuf", "ça", "dès", "des", "même", "meme", "12", "2024", "7", "x", "y", "zz", "abc", "ab", "bonjour",
    "très", "tres", "être", "i", "we", "you", "comment", "puis", "je", "augmenter", "cafe\u0301", "e\u0301te\u0301", "ø", "łódź", "ﬁn", "trop", "bas",
    "cependant", "plusieurs", "désormais", "longtemps", "notamment", "however", "everything", "something", "although", "becoming", "themselves", "différents", "suivantes",
    "№", "ｃａｒｔｅ", "Ｖｉｓａ", "𝐀bc", "㎏", "ﬃ", "x²", "ſein", "soft\u00adhyphen", "zero\u200bwidth", "ﬁ\u200bn", "İstanbul", "각", "日本", "ﾊﾟ", "😀", "€", "+", "ª",
]
PUNCT = list(".,;:!¡?¿…•(){}[]«»^`'\"\\/|-_#&~@") + ["：", "（", "）", "！", "․", "＃", "？"]  # the last ones stand for listed ones
SPACES = [" ", " ", " ", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "   ", "\u2003"]
LOOSE = ["–", "“", "”", "‘", "’", "*", "%", "§", "—", "´", "¨", "¸"]  # punctuation for spaCy, not in the list, and lonely accents; only between spaces


def fold(text: str) -> str:
    """Lower case, compatibility characters (ligatures, full-width forms, symbols) being what they stand for."""
    return unicodedata.normalize("NFKC", text).lower()


def _usable(kind: str) -> list:
    """Words that the tokenizer of the language keeps in one piece, whatever is around."""
    key = ("words", kind)
    if key not in _MODELS:
        import spacy

        nlp = spacy.blank(kind)
        _MODELS[key] = [w for w in WORDS if len(nlp.make_doc(fold(w))) == 1 and len(nlp.make_doc(fold(w) + " " + fold(w))) == 2]
    return _MODELS[key]


def case_of(d: Draw, word: str) -> str:
    how = d.int(0, 5)
    if how == 4:
        return word.upper() if word.upper().lower() == word else word
    if how == 5:
        return word.capitalize() if word.capitalize().lower() == word else word
    return word


def gen_text(d: Draw, kind: str, top: int = 10):
    """Pieces of a text: ["w", word] / ["p", punctuation] / ["s", space] / ["l", loose]."""
    usable = _usable(kind)
    pieces = []
    for _ in range(d.weighted([(1, 0), (6, d.int(1, 5)), (4, d.int(1, top))])):
        what = d.weighted([(6, "plain"), (3, "punct"), (2, "space"), (1, "loose")])
        if what == "punct":
            for _ in range(d.int(1, 3)):
                pieces.append(["p", d.choice(PUNCT)])
        elif what == "loose":
            pieces += [["s", " "], ["l", d.choice(LOOSE)], ["s", " "]]
        if what == "space" or (pieces and pieces[-1][0] == "w"):
            pieces.append(["s", d.choice(SPACES)])
        pieces.append(["w", case_of(d, d.choice(usable))])
    if d.bool(1, 4):
        pieces.append(d.choice([["s", " "], ["p", "?"], ["s", "\n"], ["p", "…"]]))
    if d.bool(1, 5):
        pieces.insert(0, d.choice([["s", "  "], ["p", "«"], ["s", "\t"]]))
    return pieces


def text_of(pieces) -> str:
    return "".join(p[1] for p in pieces)


def words_of(pieces) -> list:
    """Lower-case words of a text; loose punctuation as None."""
    return [fold(p[1]) if p[0] == "w" else None for p in pieces if p[0] in "wl"]


def strip_accents(text: str) -> str:
    return "".join(c for c in unicodedata.normalize("NFKD", text) if not unicodedata.combining(c))
