"""rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = H + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
