#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.head.md, a section for each property (from
tools/props.py and the oracles below), tools/design.tail.md with the table of
planted bugs (from seeded/ and tools/caught.json)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
ORACLE = {
"C01": "The harness's own recursion over the symbolic tree (`harness/walk.go`) gives the entries each subscription asks for; the calls made by the real traversal must be that set, each once, parents first. The tree is materialised lazily, when the code under test first reads a directory, so the solver chooses the number of entries and the kind of each as the path unfolds.",
"C02": "A total order written down from the documentation: kind first, then names, folded or not. Names are vectors of symbolic bytes, and each comparison that the real sort makes is a branch of the executor. A separate harness checks depth first preorder against parent positions.",
"C03": "The depth-limited sub-tree by recursion; the limit is a symbolic 64-bit unsigned value, so the comparison in the code is decided for all of them, including the largest.",
"C04": "A reference interpreter for the answers (`walk.go`): it replays the answers given at each node (none, SkipDir, wrapped SkipDir, SkipAll, an error; each a symbolic choice made when the client is called) and says which entries must be visited and how the traversal ends.",
"C05": "The reference interpreter with fault flags: a symbolic choice for each directory whether reading it fails, for each entry whether its information can be had, for the tree whether it can be queried, and for each question what the skip handler answers. The error given to each party is compared by identity.",
"C06": "Two traversals in one path are not needed: a client-defined filter gives a symbolic verdict per node, and the gated calls must be those of the reference interpreter in which a filtered out node gets no callback. Notifications and counts are compared with it too.",
"C07": "Matching semantics written from the documentation, independent of path/filepath and regexp: glob by a direct recursive matcher, regular expressions by the checker's own translation of the compiled program to a formula over the symbolic name, extended globs by the documented parts. Scope of a node comes from its position in the symbolic tree.",
"C08": "For each directory of the tree its files in name order, reduced by the matcher of C07 if there is a child filter.",
"C09": "The harness counts what it observes itself (calls, verdicts of its own filter, children) and compares all metrics with it, at the end notification and in the result, on every way of ending; a second traversal with the same options and filter object repeats it.",
"C10": "The log of events is parsed with a stack against the tree; each listener has its own log, and they must be interleaved in the order of registration.",
"C11": "A two-state reference (asleep, awake, finished) run over the sequence of subscribed entries with the matcher of C07 for the conditions; calls and notifications must be its output.",
"C12": "A sampler written from the statement is applied to each directory of the tree, then the reference traversal is computed on what remains; limits are symbolic 64-bit values.",
"C13": "Every field recomputed from the position of the entry in the symbolic tree, for the client and for both notifications, with pointer identity of the node.",
"C14": "Each party's behaviour (keep, drop, permute, raise or clear an error) is a symbolic choice; the harness composes the same functions itself, and the result used by the traversal must be that of the composition. The calls are counted.",
"C15": "The reference traversal up to the point of the panic, a stack parser for the notifications, and the writes recorded by the in-memory file system. The payload, the panic handler's answer and failures of the storage are symbolic choices.",
"C16": "Field by field equality of what is loaded with what was saved, all fields being unknowns at once. The encoder and decoder of JSON are modelled on trees of values, following the struct tags; natively replayed paths use the real one.",
"C17": "Equality of all persisted settings (written out in the harness) must be equivalent to the absence of an error, on symbolic pairs of options and persisted form.",
"C18": "The uninterrupted traversal of the same tree by the reference; the session file is written by the real code at the (symbolic) point of the panic and loaded by the real code. The calls after resuming must be the rest of the reference.",
"C19": "As C18, with the spawn strategy.",
"C20": "Walk, on the same tree (both by reference and by running the real sequential session). Goroutines, channels, selects, mutexes, wait groups, once, contexts, timers and atomics are executed by the engine with a symbolic scheduler: which goroutine runs next is a solver-visible choice, bounded by the number of deviations from round robin. Memory accesses are ordered with vector clocks, and a conflicting unordered pair on an explored path is a violation, replayed with a race-detecting build.",
"C21": "For every combination of shortcomings (symbolic flags) the set of errors that apply; exactly one of them must come back, nothing may have been called or written, and the result must answer its queries.",
"C22": "The same traversal on its own (before or after, in the same process), compared with each of the two that ran together; calls, metrics, errors, storage, and the definitions before and after. With race=1 all accesses of both are ordered by vector clocks.",
"C23": "A model of the settings which each option amounts to, folded over the list; the effective options are captured by a last option (a failing one, so that nothing is visited). Functions are identified by calling them. Composites are compared with the sessions that they stand for.",
"C24": "Sequences: each operation has a definition on plain slices in the harness; values are unconstrained symbolic integers (or strings), so equalities between elements are decided by the solver.",
"C25": "A table of kinds of error with what each must say; values are symbolic texts, wrapping is a symbolic choice per layer, and every recogniser is applied to every error. Messages are rendered by a model of the template (placeholders replaced, nothing rendered if one is unknown), which natively replayed paths confirm.",
"C28": "The replies are compared with the definitions as they were before the traversal; the node filter is asked again about each node visited, and the answer compared with the matcher of C07 too.",
"C29": "What the traversal could visit at most, and per moment of cancellation what must nevertheless hold (return, error, end, once each, no more than the workers). The canceller is a goroutine of its own under the symbolic scheduler, so that the cancellation falls between any two synchronisations; a session that blocks for ever is a deadlock, found as such by the engine.",
"C30": "A symbolic clock: every reading (time.Now, time.Since, also those of the code itself) is the one before plus a symbolic amount, so the comparisons are linear inequalities over all amounts; terms common to both sides are cancelled before the solver sees them (engine/linear.go).",
"C27": "The harness keeps the list of listeners of each control and the chain of each hook; at the end every control raises every event and the calls must be the lists. Scopes are compared bit by bit with the bit index symbolic.",
"C31": "The reference traversal takes the options as functions - what a directory lists, what hibernation offers, what the filters decide, what the client and the skip handler answer - and composes them in the stated order; which options are on is itself a choice of the solver's, so that every combination of up to so many is a path. Verdicts and answers are memoised symbolic choices per entry, shared by the options and the reference. Found: sample filters ignored next to node filters.",
"C26": "A list of what is registered; after each operation all the lists of the bus, and for each message its receipts, must follow from it.",
}
def table(rs):
    out = []
    for r in rs:
        r = dict(r); b = r.pop("budget_s", None)
        s = ", ".join(f"{k}={v}" for k, v in r.items()) or "defaults"
        out.append("`" + s + (f" (at most {b} s)" if b else "") + "`")
    return "; ".join(out)
o = [open(os.path.join(here, "design.head.md")).read()]
o.append("\n## The properties\n\nThe statements are in `properties.jsonl`; the harnesses in `harness/`. `reach` in `checks.json` names points that have to be\nreached, so that a check does not hold for want of cases. Costs are of the quick tier on the 8 cores here; the evidence file of\neach run has the exact number of paths, assertions, queries and solver seconds, and whether the bound was exhausted.\n")
cost = {}
cp = os.path.join(here, "cost.json")
if os.path.exists(cp): cost = json.load(open(cp))
for p in PROPS:
    o.append(f"\n### {p['id']} {p['title']}\n")
    o.append(f"* Specified: {p['quant']}\n")
    if p["id"] in ORACLE: o.append(f"* Oracle: {ORACLE[p['id']]}\n")
    for r in p["runs"]:
        o.append(f"* `{r['entry']}`: {r['what']}. Bounds: {r['bounds']}.\n  Quick: {table(r['quick'])}. Thorough: {table(r['thorough'])}.\n")
    o.append(f"* Beyond the tests: {p['why']}\n")
    o.append(f"* Outside: {p['outside']}.\n")
    for a in p.get("assumptions", []): o.append(f"* Assumption: {a}.\n")
    if p["id"] in cost: o.append(f"* Cost: {cost[p['id']]}.\n")
o.append("\n" + open(os.path.join(here, "design.tail.md")).read())
caught = json.load(open(os.path.join(here, "caught.json")))
o.append("\n| planted bug | property | caught by | needs |\n|---|---|---|---|\n")
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    o.append(f"| {s} | {m['property']} | {caught.get(s, 'not checked')} | {m['needs']} |\n")
k = json.load(open(os.path.join(root, "known-findings.json")))
o.append("\n## Defects of the repository\n\nRepaired (`fix:` commits in /repo; each is the reason why a check failed on the original tree):\n\n")
for e in k:
    if e["status"] == "fixed": o.append(f"* {e['property']} `{e['commit']}`: {e['what'].split(' ', 3)[3]}\n")
o.append("\nRecorded as known findings:\n\n")
for e in k:
    if e["status"] != "fixed": o.append(f"* {e['property']} ({e['entry']}, {e['tag']}): {e['what']}\n")
open(os.path.join(root, "DESIGN.md"), "w").write("".join(o))
