"""seedtable.py: writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
rows = []
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d))
    p = open('/verif/seeded/%s/patch.diff' % d).read()
    files = ", ".join(re.findall(r'^\+\+\+ b/src/(\S+)', p, re.M))
    rows.append("| %s | %s | %s | %s | %s |" % (d, files, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), m["property"]))
t = "<!-- seeds -->\n| id | file | what it breaks | needs | caught by the check of |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = open('/verif/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
