#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one P(...) per property)."""
import json, os
R = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    R.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/jogasaki/"+f if not f.startswith(("include","src")) else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

exec(open(os.path.join(os.path.dirname(__file__), "properties_src.py")).read())
ids=[r["id"] for r in R]; assert len(ids)==len(set(ids))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in R: f.write(json.dumps(r, ensure_ascii=False)+"\n")
print(len(R), "properties")
