"""rewrites the generated parts of DESIGN.md (between <!-- x --> and <!-- /x -->): contract targets, seeded bugs, reasons of not_applicable"""
import glob
import json
import os
import re
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props  # noqa: E402


def put(text, tag, body):
    return re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: f"<!-- {tag} -->\n{body}\n<!-- /{tag} -->", text, flags=re.S)


rows = []
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l)
    p = props.PROPS.get(d["id"])
    if not p: continue
    ev = os.path.join(H, "evidence", d["id"] + ".json")
    fns = ""
    if os.path.exists(ev):
        c = json.load(open(ev))["coverage"]
        ts = sorted({f["target"].split(":")[-1] for f in c.get("functions_under_contract", [])})
        if ts: fns = f"{len(c['functions_under_contract'])} contracts, {c['obligations']} obligations on `" + "`, `".join(ts) + "`"
        laws = ", ".join(c.get("laws", {}))
    else: laws = ""
    rows.append(f"| {d['id']} | {p['level']} | {d['title']} | {fns or '–'} | {laws} | {p['note']} |")
t = open(os.path.join(H, "DESIGN.md")).read()
t = put(t, "table", "| id | level | property | proved: functions under contract | bounded run-time laws | scope |\n|---|---|---|---|---|---|\n" + "\n".join(rows))
na = getattr(props, "NOT_APPLICABLE", {})
t = put(t, "na", "\n".join(f"* {k}: {v}" for k, v in na.items()) or "none")
det = json.load(open(os.path.join(H, "tools", "detected.json"))) if os.path.exists(os.path.join(H, "tools", "detected.json")) else {}
s = []
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    s.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {det.get(i, '?')} |")
t = put(t, "seeded", "| bug | property | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(s))
fx = [f for f in json.load(open(os.path.join(H, "known_findings.json"))) if f["kind"] == "fixed"]
t = put(t, "fixes", "\n".join("* " + f["what"] for f in fx))
open(os.path.join(H, "DESIGN.md"), "w").write(t)
