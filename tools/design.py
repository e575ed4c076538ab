"""Writes DESIGN.md from DESIGN.tmpl.md, the check modules, known_findings.jsonl and seeded/."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools"), "/repo/src"]
sys.dont_write_bytecode = True
import notes  # noqa: E402


def main():
    t = open(os.path.join(ROOT, "tools", "DESIGN.tmpl.md")).read()
    out = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        m = importlib.import_module(f"checks.{i.lower()}")
        out.append(f"### {i} {p['title']}\n")
        out.append(notes.NOTES.get(i, "").strip() + "\n")
        ev = os.path.join(ROOT, "evidence", i + ".json")
        for h in m.HARNESSES:
            out.append(
                f"* harness `{h.name}` ({len(h.quick)} quick / {len(h.thorough)} thorough "
                f"configurations): {h.bounds}.  Stubs: {'; '.join(h.stubs) or 'none'}."
            )
        c = notes.COST.get(i)
        if c:
            out.append(f"* cost: {c}.")
        out.append(f"* beyond tests: {p['why_tests_cant']}\n")
    t = t.replace("@@PROPS@@", "\n".join(out))
    fixed = [
        "* " + l.strip() for l in open(os.path.join(ROOT, "known_findings.jsonl")) if l.strip()
    ]
    t = t.replace("@@FIXED@@", "\n".join(fixed))
    seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    d = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(d)):
        f = os.path.join(d, s, "meta.json")
        if os.path.exists(f):
            m = json.load(open(f))
            seeds.append(
                f"| {s} | {m['property']} | {m['needs']} | {notes.CAUGHT.get(s, m['property'])} |"
            )
    t = t.replace("@@SEEDS@@", "\n".join(seeds))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)


main()
