"""Writes DESIGN.md from design.md.in and the planted bugs."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
# planted bugs that the checks of the day missed, and what was added so that they are caught
MISSED = {
 "F01-blank-value": "values of white space only are now generated",
 "F02-period-key": "contexts that differ in one date only are now generated in one filing",
 "F15-outer-language": "`xml:lang` is now put on any element around a footnote",
 "F19-three-letter-languages": "pools of languages that are prefixes of each other, three letters and regions",
 "F20-remembered-prefixes": "rival filings now use prefixes that the next one leaves unbound, and names of theirs are asked for",
 "F20-shared-catalog": "the decorations of a history now include a catalog",
}
rows = ["## Planted bugs and which checks catch them",
        "Each lies in `seeded/<id>` with patch, demonstration and what it needs to manifest, and was written from the property's text and the",
        "code. All are caught at present by the quick check of their property; where the check of the day missed one at first, the last column",
        "says what was added.", "", "| bug | caught by | what it breaks | missed at first |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(here, "..", "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['property']} | {' '.join(d['what_it_breaks'].split())[:220]} | {MISSED.get(i, '')} |")
t = open(os.path.join(here, "design.md.in")).read()
open(os.path.join(here, "..", "DESIGN.md"), "w").write(t.replace("@@SEEDS@@", "\n".join(rows)))
