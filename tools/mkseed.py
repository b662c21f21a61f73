#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes /verif/seeded/<id>/ from specs: each SPEC.py defines SEEDS, a list of dicts
id, property, edits=[(file, old, new)], needs, breaks, demo (C++ source), libs (archon libraries to link), flags."""
import sys, os, subprocess, json, tempfile, runpy
OUT = "/verif/seeded"
for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)["SEEDS"]:
        d = f"{OUT}/{s['id']}"; os.makedirs(d, exist_ok=True)
        diff = ""
        for f in dict.fromkeys(e[0] for e in s["edits"]):
            p = f"/repo/{f}"; t = open(p).read()
            for _, old, new in [e for e in s["edits"] if e[0] == f]:
                assert t.count(old) == 1, (s["id"], f, old, t.count(old))
                t = t.replace(old, new)
            with tempfile.NamedTemporaryFile("w", suffix=".new", delete=False) as g: g.write(t)
            r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, p, g.name], capture_output=True, text=True); os.unlink(g.name)
            diff += r.stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
        libs = " ".join(f"/repo/_build/src/libarchon-{l}.a" for l in s.get("libs", ["core"]))
        open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: behaves as it should
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; cd "$W" || exit 2
g++ -std=c++20 -g -w {s.get('flags', '-fsanitize=address,undefined -fno-sanitize-recover=all')} -I/repo/src -I/repo/_build/src "$D/demo.cpp" {libs} -pthread -o demo || exit 2
timeout 60 ./demo
""")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"])
