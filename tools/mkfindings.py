"""Writes known-findings.json: the repaired defects and the ones left open (edited by hand here, never by a check)."""
import json, os, subprocess
FIXED = {
 "2d65ae6": "F15", "1a7b9b1": "F05", "16c9488": "F15", "ad89ade": "F18", "e768a8a": "F05", "e4b6aae": "F08", "66c29a9": "F16", "9ae68c1": "F06", "6ab7e02": "F23", "622a743": "F22", "641c6ca": "F22", "421dcab": "F16", "4ce7b2f": "F16", "7a90a6d": "F16", "2075164": "F14", "784a853": "F05", "153b79e": "F02",
 "213858e": "F19", "06cb6ba": "F19", "5cd8a54": "F19", "d6506b8": "F21", "c384bfe": "F21", "4e37531": "F18", "6f3c854": "F18",  # commit -> property
 "9076dc4": "F03", "151cecd": "F15", "eec956d": "F15", "b2f947b": "F12", "953a158": "F13",
 "924be4a": "F13", "0ff47e2": "F13",
 "14c2b05": "F07", "23736a7": "F20", "f43ac50": "F16", "245f668": "F01", "c13b042": "F16", "f86343c": "F02", "5b5ecbb": "F06", "f71bf5e": "F16",
 "aab9f96": "F13", "ebd572b": "F13", "c9a5bca": "F13", "ea75ad4": "F13", "927371d": "F13", "0c3120f": "F13", "2f4d8f3": "F13",
 "bfaf186": "F15", "c6074e6": "F15", "377b482": "F15", "3bc5ec6": "F15", "a3fe488": "F12", "4db83a6": "F14", "aa9053b": "F12", "b6727ee": "F12",
 "99ebf40": "F12", "461ef57": "F15", "b444c95": "F15", "5d01f99": "F14", "51dd3b3": "F01", "24973f0": "F03", "f7f37bb": "F03", "32d6a10": "F03",
 "8aa44da": "F20", "7988454": "F19", "f5c586a": "F19", "b4554c5": "F19", "eee079d": "F19", "63a3e30": "F11", "7c27216": "F07", "e8ae6c5": "F20",
 "6dbc943": "F06", "8d03f8a": "F09", "70417fa": "F09", "5f401e8": "F16", "1270316": "F20", "ee1cdcf": "F05", "28f42c4": "F03", "2833ae0": "F03",
 "11284d2": "F03", "cc6f6fc": "F03", "a8331e3": "F04", "aa444af": "F04", "bb2dd82": "F02", "8d66ac8": "F02", "fce60d4": "F02", "61e595b": "F02",
 "7ad3d2b": "F10", "0d682c5": "F16", "e9b59ac": "F02", "c910e6c": "F02", "f12295e": "F01", "277e4ab": "F16",
}
OPEN = []   # {"property", "match", "what"}
here = os.path.dirname(os.path.abspath(__file__))
log = subprocess.run(["git", "-C", os.environ.get("BREL_REPO", "/repo"), "log", "--format=%h %s"], capture_output=True, text=True).stdout
lines = []
for l in reversed(log.splitlines()):
    h, _, subj = l.partition(" ")
    if subj.startswith("fix:"):
        lines.append(f"fixed: property={FIXED.get(h[:7], '?')} {h} {subj[5:]}")
bad = [l for l in lines if "property=?" in l]
assert not bad, bad
json.dump({"findings": OPEN, "fixed": lines}, open(os.path.join(here, "..", "known-findings.json"), "w"), indent=1)
