"""Findings, evidence and the command-line protocol of a check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    """Collects what one property's analysis looked at and found."""

    def __init__(self, project, tier="quick"):
        self.p = project
        self.tier = tier
        self.findings = {}
        self.obligations = []
        self.functions = set()
        self.states = 0
        self.events = 0
        self.call_sites = set()
        self.notes = []
        self.samples = []
        self.rules = {}

    # ---- recording
    def rule(self, name, text):
        self.rules[name] = text

    def obligation(self, rule, what, ok=True):
        self.obligations.append((rule, what, bool(ok)))

    def violation(self, rule, construct, loc, msg):
        key = "%s/%s" % (rule, construct)
        if key not in self.findings:
            self.findings[key] = (rule, construct, loc, msg)

    def require(self, rule, what, ok, construct, loc, msg):
        self.obligation(rule, what, ok)
        if not ok:
            self.violation(rule, construct, loc, msg)
        return ok

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def absorb(self, it):
        self.functions |= {
            f for f in it.visited_funcs if not f.startswith("<driver>")}
        self.states += it.n_states
        self.events += it.n_events
        self.call_sites |= it.n_calls
        self.max_steps = max(getattr(self, "max_steps", 0), it.steps)
        for x in it.incomplete:
            self.note("not fully explored: " + x)

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)


def load_known():
    """-> {(property, finding key): text}; 'fixed:' lines suppress nothing."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as fp:
        for line in fp:
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            if not line.startswith("known:"):
                continue
            body = line[len("known:"):].strip()
            parts = body.split(None, 2)
            prop = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1]
            out[(prop, key)] = parts[2] if len(parts) > 2 else ""
    return out


def finish(prop, title, ctx, tier, seed, t0):
    known = load_known()
    viol = []
    for key, (rule, construct, loc, msg) in sorted(ctx.findings.items()):
        if (prop, key) in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (
                prop, loc, known[(prop, key)] or msg))
            continue
        viol.append((key, rule, loc, msg))
    bad = {(v[1]) for v in viol}
    disc = sum(1 for r, w, ok in ctx.obligations if ok)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (
                "Static analysis of /repo's current source (parsed and "
                "resolved on this run, never executed). Each obligation is "
                "one instance of a rule below at a construct of the code; "
                "path rules are decided on every path of the inlined flow "
                "graph, exceptional and cancellation exits included."
            ),
            "rules": ctx.rules,
            "obligations": len(ctx.obligations),
            "discharged": disc,
            "obligation_list": [
                "%s: %s%s" % (r, w, "" if ok else " -- FAILED")
                for r, w, ok in ctx.obligations][:200],
            "functions_analysed": sorted(ctx.functions),
            "n_functions": len(ctx.functions),
            "call_sites": len(ctx.call_sites),
            "abstract_states": ctx.states,
            "events": ctx.events,
            "modules_parsed": len(ctx.p.modules),
            "notes": ctx.notes,
            "samples": ctx.samples,
        },
        "assumptions": [
            "callees outside the repository behave as their documented "
            "contracts (table in sa/interp.py)",
            "distinct attributes hold distinct objects unless assigned from "
            "one another",
        ],
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    if viol:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(rp, "w") as fp:
            fp.write("%s %s\n" % (prop, title))
            for key, rule, loc, msg in viol:
                fp.write("%s\n  at %s\n  rule: %s\n  %s\n" % (
                    key, loc, ctx.rules.get(rule, rule), msg))
        for key, rule, loc, msg in viol:
            print("%s: [%s] %s" % (loc, key, msg))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: held; %d obligations over %d functions, %d states" % (
        prop, len(ctx.obligations), len(ctx.functions), ctx.states))
    return 0
