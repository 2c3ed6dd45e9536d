"""Prints the table of DESIGN.md section 5 from the outputs of the checks on the planted bugs: seed_table.py DIR (DIR/seed_<id>.txt)."""
import glob, json, os, re, sys
print("| planted bug | property | what it breaks | reported at |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "seeded", "*", "meta.json"))):
    i = m.split("/")[-2]; d = json.load(open(m))
    t = open(os.path.join(sys.argv[1], f"seed_{i}.txt")).read()
    x = [l.strip() for l in t.split("\n") if "rule '" in l]
    g = re.match(r"(\S+?):(\d+) (.*?): rule '(.*?)' broken: (.*)", x[0]) if x else None
    at = f"`{g[3]}`: {re.split(r"[:>]", g[5])[0].strip()}" if g and "reference" in g[4] else (f"`{g[3]}`: {g[4]}" if g else "?")
    at = at.replace("|", "\\|")
    print(f"| {i} | {d['property']} | {d['what_it_breaks'].split(';')[0][:120]} | {at[:150]} |")
