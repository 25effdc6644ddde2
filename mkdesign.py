"""refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], d['property'], d['what_it_breaks'], d['needs']))
t = '| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows)
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n%s\n<!-- /seeds -->' % t, s, flags=re.S)
open(p, 'w').write(s)
