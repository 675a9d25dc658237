#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = "explicit-state model checking of the real code: "
T = {
 'C01': BFS + "exhaustive breadth-first search over red-black shapes and small key alphabets, compared step by step with an ordered map",
 'C02': BFS + "exhaustive breadth-first search over red-black shapes and label alphabets with all spellings, compared with an ordered map",
 'C03': BFS + "exhaustive breadth-first search over all reachable red-black shapes, invariant checked in each",
 'C04': BFS + "every copying operation in every reachable state and every branching history up to a depth, old versions observed again",
 'C05': BFS + "every in-place insertion in every reachable state against the copying one, all mixed histories up to a depth",
 'C06': BFS + "exhaustive breadth-first search over prefix alphabets at every bit offset against a bitwise containment model",
 'C07': BFS + "every deletion in every reachable state of prefix alphabets at every bit offset against a containment model",
 'C08': BFS + "exhaustive breadth-first search over network alphabets at every bit offset of both families against a containment model",
 'C09': BFS + "every deletion in every reachable state of network alphabets at every bit offset of both families",
 'C10': BFS + "enumeration of every reachable state of network alphabets compared with the sorted model",
 'C11': BFS + "UpdateDescendants with every target and callback pattern in every reachable state of network alphabets",
 'C12': BFS + "every operation with every unusable key in every reachable state of small network alphabets",
 'C13': "bounded exhaustive enumeration of texts run through the real parser against a reference parser",
 'C14': "bounded exhaustive enumeration of texts and labels run through the real code against a reference",
 'C15': "bounded exhaustive enumeration of names, callback failure points and offsets on the real code",
 'C16': BFS + "exhaustive breadth-first search over name alphabets against the longest-suffix model",
 'C17': BFS + "every deletion in every reachable state of name alphabets against a set model",
 'C18': BFS + "enumeration of every reachable state of name alphabets compared with the sorted model",
 'C19': BFS + "all histories up to a depth in lockstep with the generic trees; exhaustive values",
 'C20': "stateless model checking of instrumented code under a controlled scheduler: all schedules within a delay bound (deviations from round robin), plus happens-before race check of every ordered pair of operations",
 'C21': "stateless model checking of instrumented code under a controlled scheduler: all schedules of producers, consumers and updates within a delay bound",
 'C22': BFS + "dump of every reachable state parsed and compared with the model",
 'C23': "bounded exhaustive enumeration of catalogues, selectors, templates and faults run through the real command against a reference expander",
 'C24': BFS + "packages regenerated by the real generator explored exhaustively like the committed ones",
 'C26': BFS + "every operation with lent and then overwritten arguments, and overwriting of every received network, in every reachable state of network alphabets",
 'C27': BFS + "all states of small alphabets under every ordered pair of peculiar values and rotations of them",
 'C28': BFS + "everything reachable from every state of key alphabets compared with the model, and all insert/delete cycles repeated in every state",
 'C25': BFS + "every operation under every spelling in every reachable state of name and label alphabets",
}
NOTE = "Exhaustive within the bounds given in the evidence file; nothing is claimed outside of them."
EXTRA = {
 'C20': "Interleavings at statement granularity under sequential consistency; weak memory effects are covered only through the data race check.",
 'C21': "Interleavings at statement and channel granularity under sequential consistency.",
}
claimed = sys.argv[1:] or sorted(T)
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
            "technique": T[i], "level": "model_checking", "level_note": (EXTRA.get(i, "") + " " + NOTE).strip()})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
