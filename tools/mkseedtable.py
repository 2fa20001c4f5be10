"""Replaces the table between the SEEDS markers of DESIGN.md by one made from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = {'e03-minus-space','e09-stringify-multibyte','c08-neg-inf','c18-call-arrow','c14-path-colon','c09-call-no-args','c12-asm-operand-overflow','c15-split-qualifier'}
rows = ['| planted bug | property (= the check which catches it) | what it breaks |', '|---|---|---|']
for i in sorted(os.listdir(f'{R}/seeded')):
    d = json.load(open(f'{R}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {d['property']}{' *' if i in late else ''} | {d['what_it_breaks'].rstrip('.').replace('|', chr(92) + '|')} |")
p = f'{R}/DESIGN.md'
s = open(p).read()
new = '<!-- SEEDS -->\n' + '\n'.join(rows) + '\n<!-- /SEEDS -->'
s = re.sub(r'<!-- SEEDS -->.*<!-- /SEEDS -->', lambda m: new, s, flags=re.S) if '<!-- SEEDS -->' in s else s.replace('@SEEDS@', new)
open(p, 'w').write(s)
