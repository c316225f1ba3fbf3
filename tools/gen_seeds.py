"""Rewrite the table of the planted bugs in DESIGN.md (between the two markers)."""
import json
import re
from pathlib import Path

BASE = Path(__file__).resolve().parent.parent
ADDED = {  # what had to be added to the check for the bugs that were missed at first
    "c01-prefix-dots": "awkward prefix names in the shapes",
    "c02-restamped-version": "operations that record an element again (details search)",
    "c02-second-configuration": "runs that differ in one field (details search)",
    "c02-second-prefix": "operations on elements below prefixes",
    "c04-compare-references": "objects with equal content in another order",
    "c05-all-prefixes": "model with several prefixes per version",
    "c05-lookup-by-listing": "second tree and several datasets",
    "c06-below-entry": "lookups that continue below entries",
    "c06-remove-released": "comparison of removal on released nodes",
    "c08-zero-stamp": "pairs of runs with one unusual field",
    "c09-second-realm": "the search over two realms",
    "c13-same-name": "second realm with the same directory name",
    "c26-elements-released": "inner objects are looked up and held",
    "c24-names-then-objects": "writers whose elements sort before the existing ones",
}


def main():
    rows = ["| change | needs | breaks | caught by | added, if it was missed first |", "|---|---|---|---|---|"]
    for path in sorted((BASE / "seeded").iterdir()):
        meta = json.loads((path / "meta.json").read_text())
        rows.append(f"| {path.name} | {meta['needs']} | {meta['what_it_breaks']} | {meta['property']} | "
                    f"{ADDED.get(path.name, '')} |")
    design = BASE / "DESIGN.md"
    text = design.read_text()
    text = re.sub(r"(<!-- seeds -->\n).*(<!-- /seeds -->)",
                  lambda m: m[1] + "\n".join(rows) + "\n" + m[2], text, flags=re.S)
    design.write_text(text)


if __name__ == "__main__":
    main()
