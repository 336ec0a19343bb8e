"""Rewrites the generated part of DESIGN.md (planted bugs, repairs)."""
import json
import pathlib
import subprocess

ROOT = pathlib.Path(__file__).resolve().parent.parent
MARK = "<!-- generated by tools/gen_design.py from here on -->\n"


def main():
    p = ROOT / "DESIGN.md"
    s = p.read_text().split(MARK)[0]
    out = [MARK, "\n## Planted bugs\n\nEach is in `seeded/<id>/` (written from `tools/seeds/<id>.py`; `tools/seeds.py build` confirms it in a scratch copy, `tools/seeds.py catch` runs the checks). ",
           "All of them are caught by the quick check of their property.\n\n| bug | property | needs | breaks |\n|---|---|---|---|\n"]
    for d in sorted((ROOT / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        out.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n")
    out.append("\n## Defects found and repaired in /repo\n\n")
    for x in json.loads((ROOT / "known_findings.json").read_text())["fixed"]:
        _, prop, rest = x.split(" ", 2)
        h, what = rest.split(" ", 1)
        out.append(f"- {prop.split('=')[1]} `{h}`: {what}\n")
    p.write_text(s + "".join(out))


main()
