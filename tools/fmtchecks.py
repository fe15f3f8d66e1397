# Rewrites checks.json with one run per line.
import json
p = "/verif/checks.json"
d = json.load(open(p))
out = []
for k in sorted(d):
    v = d[k]
    parts = []
    for t in ("quick", "thorough"):
        if t in v:
            parts.append('  "%s": [\n%s]' % (t, ",\n".join("   " + json.dumps(r) for r in v[t])))
    for t in ("bounds", "assumptions"):
        if t in v:
            parts.append('  "%s": %s' % (t, json.dumps(v[t])))
    out.append(' "%s": {\n%s\n }' % (k, ",\n".join(parts)))
open(p, "w").write("{\n" + ",\n".join(out) + "\n}\n")
