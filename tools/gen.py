#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, PAL, TRI = "image-palette-recoloring/src/lib.rs", "image-palette-recoloring/src/palette.rs", "image-palette-recoloring/src/triangle_distance.rs"
HULL, DEL, RAW, EXT = "qhull-rs/src/convex_hull.rs", "qhull-rs/src/delaunay.rs", "qhull-rs/src/raw.rs", "qhull-sys/src/ext.c"
C, H = "image-palette-recoloring-c/src/lib.rs", "image-palette-recoloring-c/image-palette-recoloring.h"
CLI = "image-palette-recoloring-cli/src/main.rs"
WW, IJ = "image-palette-recoloring-web/src/js/webworker.js", "image-palette-recoloring-web/src/js/index.js"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, claimed=claimed))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: everything is observed through public interfaces", "source_commits": []},
    "checks": [{
        "property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": "the check is not built yet"} for p in P if not p["claimed"]],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
