"""Print the table of planted bugs for DESIGN.md section 7."""
import glob, json, os
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    print(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
