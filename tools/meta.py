#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json.

    python3 tools/meta.py          rewrite both files
"""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
I = "include/ieompp/"

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe=None, technique=None, note=None,
      harness=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, observe=observe or [], technique=technique,
                      note=note))


exec(open(os.path.join(HERE, "props_data.py")).read())



def design():
    """DESIGN.md from tools/design.md, the oracles of design_data.py and the seeded bugs"""
    import re
    ns = {}
    exec(open(os.path.join(HERE, "design_data.py")).read(), ns)
    table = []
    for p in PROPS:
        src = os.path.join(ROOT, "harness", p["id"] + ".cpp")
        bounds = re.findall(r"^// vf:assume=(.*)$", open(src).read(), re.M) if os.path.exists(src) else []
        table.append("**%s %s.** %s%s\n" % (p["id"], p["title"], ns["ORACLE"][p["id"]],
                                           " *Bounds:* " + "; ".join(bounds) + "." if bounds else " *Bounds:* " + p["note"]))
    planted = []
    d = os.path.join(ROOT, "seeded")
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        planted.append("* %s - %s; needs %s. %s" % (b, m["what_it_breaks"], m["needs"], m.get("caught", "Caught by %s." % m["property"])))
    fixes = len(re.findall("^fixed: ", open(os.path.join(ROOT, "known_findings.txt")).read(), re.M))
    text = open(os.path.join(HERE, "design.md")).read()
    for k, v in (("@TABLE@", "\n".join(table)), ("@PLANTED@", "\n".join([""] + planted)), ("@FIXES@", str(fixes))):
        text = text.replace(k, v)
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(text)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}},
                ensure_ascii=False) + "\n")
    have = set()
    if os.path.isdir(os.path.join(ROOT, "checks")):
        have |= {os.path.splitext(x)[0] for x in os.listdir(os.path.join(ROOT, "checks"))}
    have |= {os.path.splitext(x)[0] for x in os.listdir(os.path.join(ROOT, "harness"))}
    checks, na = [], []
    for p in PROPS:
        if p["id"] in have:
            checks.append({"property": p["id"],
                           "quick_cmd": "python3 run.py %s" % p["id"],
                           "thorough_cmd": "env VERIF_TIER=thorough python3 run.py %s" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"],
                           "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
         "not_applicable": na,
         "notes": "All checks run the real code of /repo's working tree under monitors and "
                  "ASan+UBSan (or TSan); see DESIGN.md. No hooks in /repo are needed: every "
                  "observation point is reached through the public API, through stand-ins for the "
                  "absent Blaze/spdlog dependencies, or at the process boundary."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    design()
    print(len(PROPS), "properties,", len(checks), "checks")


main()
