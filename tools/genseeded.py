"""Writes the table of planted bugs into DESIGN.md (documentation only, no check reads seeded/)."""
import json, os, textwrap
B, E = "<!-- planted bugs: begin -->\n", "<!-- planted bugs: end -->\n"
out = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    out.append(textwrap.fill(f"- `{d}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']}.".replace("..", "."), 118, subsequent_indent="  "))
s = open("DESIGN.md").read()
i, j = s.index(B) + len(B), s.index(E)
open("DESIGN.md", "w").write(s[:i] + "\n" + "\n".join(out) + "\n\n" + s[j:])
print(len(out))
