"""editprop.py ID FIELD  (new text on stdin): edit one property in place."""
import json, sys
pid, fld = sys.argv[1:3]
text = sys.stdin.read().strip()
rows = [json.loads(l) for l in open('/verif/properties.jsonl')]
for r in rows:
    if r['id'] == pid:
        if '.' in fld:
            a, b = fld.split('.'); r[a][b] = text
        else:
            r[fld] = text
with open('/verif/properties.jsonl', 'w') as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
