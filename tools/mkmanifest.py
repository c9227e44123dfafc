"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "harness"))
import checks
T = "TLA+ model checked with TLC; conformance by replaying the model's documents and tracing brel's reports through it"
NOTE = {
 "F01": "Every order of reading one or two (thorough: three) facts over a template alphabet is model checked and replayed; thousands of random filings and defective filings are traced through the same machine. Trusts the writer of files and the projection of brel's report.",
 "F02": "All pairs of contexts over periods, entities and dimension mixes are model checked and replayed; random filings extend this to more contexts, units and prefixes.",
 "F05": "All combinations of declaration attributes in the scope are model checked and replayed; random schema sets cover files, prefixes and namesakes.",
 "F06": "All acyclic links over four elements are model checked and replayed for each kind; random links cover orders, weights, arcroles and written forms.",
 "F07": "All families of two and three links over three (thorough: two over four) elements are model checked in every order of reading and replayed; random families cover files, attributes and kinds.",
 "F08": "All sets of two role types and two links are model checked and replayed; random taxonomies extend this.",
 "F09": "All arc sets between two elements and two resources in two links are model checked and replayed; random links extend this.",
 "F10": "All balances, signs and shapes over three concepts are model checked and replayed; random calculation networks extend this.",
 "F11": "Small totals over two contexts are enumerated, model checked and replayed; random networks with exact decimal sums (judged by residues) extend this.",
 "F16": "Every listed defect (thorough: every pair) of one sound filing is model checked and replayed; random XML and inline filings with up to five random defects out of some fifty kinds extend this.",
 "F03": "Every graph of up to four (thorough: five) references over six documents on disk and far away is model checked in every order of visits, with documents unavailable and catalogs, and replayed on disk and a local HTTP server; random worlds add kinds of references, written forms, archives, look-alike addresses and pages. What brel read is seen by one mark per document and by the server's log.",
 "F04": "All histories of four (thorough: five) openings, edits, publications and outages over two remote documents with look-alike addresses are model checked and replayed in alternating processes; random histories extend this to random worlds.",
 "F21": "Every listing of up to two (thorough: three) submissions with every request is model checked (what is opened fits, is newest, and does not depend on the order) and replayed with a stand-in for the network; random histories of listings, days and requests are traced.",
 "F17": "Small contents with namesakes, ambiguous prefixes, facts and errors are model checked with every history of queries (answers depend on the content only, partition it, and fit together) and replayed; random filings, XML and inline, are asked seeded histories of queries about what is there and what is nearly there, and their content is listed again afterwards.",
 "F18": "Every text of up to four (thorough: five) characters over those that matter to numbers is model checked against an independent grammar and arithmetic and replayed as the value of facts of several data types; random contexts that are easily mistaken for each other are opened and every pair of characteristics compared, for XML and inline filings.",
 "F19": "Small sets of labels with every combination of requested languages, settings of filing, library and system, and options are model checked (rows, earliest language, fallbacks, unmixed tables) and replayed; random filings with labels in several languages are taken through seeded histories of settings and tables, which have to be explained by one fixed order of the report's languages.",
 "F20": "Every history of five (thorough: six) steps of writing, opening, reading, dropping and restarting over two paths, two rival filings and two ways of writing each down is model checked (a library that shares by path or by name is told apart) and a sample replayed with random rival filings, in fresh and in long-used processes with different hash seeds.",
 "F12": "Every text of up to three (thorough: four) characters over the characters that matter to each format, with scales and signs, is model checked against an independent arithmetic (residues) and replayed; random long numbers, groupings, scales, nestings and malformed texts extend this.",
 "F13": "Dates written in every format, month, month name, script and style are model checked to read back as the date written and replayed (quick: a seeded sample); the Indian calendar is checked over a whole cycle; random and malformed dates extend this. Texts that the registries leave to the reader are left open.",
 "F14": "All arrangements of a fact in three pieces, another fact, an exclusion and markup on up to two pages (four, thorough: five parts) are model checked in every order of pages and replayed; random nestings, chains and pages extend this.",
 "F15": "Random instances are distributed over pages, headers, hidden sections and nesting levels with footnotes and relationships; the specification turns the pages into the equivalent XML instance and judges brel's report by it.",
 "F23": "Every element with up to three (thorough: four) labels over languages that resemble each other, small networks and facts are model checked for the views being determined by the item; every item of ~350 random filings (XML and inline, sound and defective, with namesakes) is looked at in every way and each answer has to be the one that View.tla derives from the plain accessors. The wording of error messages and the text of references are open.",
 "F22": "Every forest of up to five (thorough: seven) nodes and every table of two facts over two aspects is model checked (what is printed determines what was given) and the forests are replayed as networks; random filings of all kinds are printed as lists of facts, single facts, networks, nodes and components and the output is followed line by line by the specified printer. Texts with line breaks or with the characters that draw tables are left out.",
}
PENDING = "check not built yet"
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": [], "not_applicable": [],
     "notes": "All checks are TLA+ (TLC). No hooks in /repo are needed: everything is observed through the public API. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 /verif/check.py {i}", "thorough_cmd": f"python3 /verif/check.py {i} thorough",
                            "technique": checks.TECHNIQUE.get(i, T) if hasattr(checks, "TECHNIQUE") else T, "level": "model_checking", "level_note": NOTE.get(i, "") or checks.NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
