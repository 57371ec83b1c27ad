"""Rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json and the notes below."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
NOTES = {
    "json_non_ascii": "missed at first: lone surrogates in IDs",
    "sampling_500": 'missed at first: "huge" tests with up to 7140 pairs',
    "sampling_rounded": "missed at first: tiny and huge scales",
    "random_truncated": "missed at first: C11 got up to 561 pairs and a computed number of seeds",
    "cop_new_cluster_shared": "missed at first: C12 got densely constrained data",
    "sampling_prunes_clustering": "missed at first: stale labels of unmanaged IDs",
    "kmeans_centroid_round": "caught by the larger cases of C18",
    "spacy_case_cache": "missed at first: near copies of texts by case",
    "mpc_traversal_last": "missed at first: C30 got larger cases",
    "spectral_cached_adjusted": "missed at first: objects used before on more links (retracted since)",
    "kmeans_warm_start": "missed at first: more kinds of earlier use in C14",
    "rename_window": "missed at first: many distinct labels",
    "sampler_cluster_identity": "missed at first: labels above 256",
    "inferred_joined_key": "missed at first: IDs whose concatenations are ambiguous",
    "sampler_float32": "missed at first: almost equal long distances",
    "spacy_truncated": "missed at first: long texts",
    "preprocess_truncated": "missed at first: long texts",
    "mpc_seed_large": "missed at first: huge sizes in C14",
    "cut_iteration_wide": "caught since the huge sizes",
    "tfidf_sublinear_large": "missed at first: long texts with many repetitions",
    "completeness_but_one": "missed at first: test \"last\" (all relations known but one or two)",
    "hier_first_members": "missed at first: tests \"few\" of C12",
    "kmeans_eighteen": "missed at first: test \"slow\" of C18",
    "sampler_256_columns": "caught since vectors of up to 600 coordinates",
    "hier_hundred_columns": "caught since vectors of up to 600 coordinates",
    "dbscan_big_remainder": "missed at first: test \"dense\" of C32",
    "mpc_coarse_tolerance": "missed at first: very close data in C30",
}


def main():
    rows = []
    for path in sorted((ROOT / "seeded").glob("*/meta.json")):
        meta = json.loads(path.read_text())
        rows.append((meta["property"], path.parent.name, meta["what_it_breaks"], NOTES.get(path.parent.name, "")))
    text = "All are caught by the quick check of their property.\n\n| Property (= check that catches it) | Planted bug | What it breaks | Note |\n|---|---|---|---|\n"
    text += "".join(f"| {' | '.join(r)} |\n" for r in sorted(rows))
    design = (ROOT / "DESIGN.md").read_text()
    head, rest = design.split("<!-- table -->\n")
    tail = rest.split("<!-- end table -->")[1]
    (ROOT / "DESIGN.md").write_text(head + "<!-- table -->\n" + text + "<!-- end table -->" + tail)


if __name__ == "__main__":
    main()
