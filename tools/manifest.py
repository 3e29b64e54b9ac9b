#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
TRUST=(" A clean batch is evidence, not proof: schedules, inputs and faults are sampled. Trusted: the Go compiler, the source instrumenter (it only adds"
 " scheduling points and access records), the simulator's locks and happens-before tracking, and the reference model. Schedules are sequentially"
 " consistent at source-level memory accesses; any data race is itself reported, so weaker memory behaviour needs no separate search.")
LIN=("linearizability of the recorded history against a sequential model, happens-before race detection, deadlock and step limits, and a full audit at quiescence")
T={
"C01":LIN,"C02":LIN,"C03":LIN,"C04":LIN,
"C05":LIN+" over a pair of sets in both operand orders",
"C06":LIN+" with simulated clock and random source",
"C07":LIN+" with simulated hash function",
"C08":LIN,"C09":LIN,"C10":LIN,
"C11":LIN+" with freshly built rings as the reference",
"C12":LIN+" with a sequential filter as the reference",
"C13":"crashes at seeded steps, only exported bytes survive; the rebuilt filter is compared with the states the history allows at the export",
"C14":"seeded panics and goroutine exits inside comparators, visitors and caller containers; linearizability with the failed call optional or partial, progress of all others, audits",
"C15":"traversals under concurrent writers with seeded early stops, linearized as one-instant snapshots; visitors that use other instances",
"C16":"separate instances driven by concurrent clients, each compared with a sequential model of its own; race detection across instances",
"C17":"readers only on one shared unlocked instance; any write to shared memory races, and each answer is compared with the model",
"C18":"comparator panics at seeded comparisons and concurrent calls on disjoint ranges; conservation after each interruption, documented order after each completion",
"C19":"seeded concurrent and interrupted histories; red-black invariants and comparison counts audited at quiescence",
}
checks=[]
na=[]
for p in props:
    i=p["id"]
    if i in T:
        checks.append(dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="./check.sh "+i+" thorough",
            evidence_file="evidence/"+i+".json",
            technique="deterministic simulation with fault injection: seeded schedule and fault search; "+T[i],
            level="exploration",
            level_note="Seeded search over simulated executions of the real code of the working tree; every violation is minimised and replays from its file."+TRUST))
NA={
"C20":"Pure function of its arguments: no schedule, clock, fault or second party takes part in a comparison, so there is nothing for a simulator to decide. (Comparators are exercised as part of C01-C06 and C16, where each element type is drawn at random.)",
"C21":"Deterministic single-owner calls on a private structure: the outcome depends on the arguments alone. (What several owners of separate deques observe at the same time is C16, what concurrent readers observe is C17.)",
"C22":"Deterministic single-owner calls on a private structure: the outcome depends on the arguments alone. (Separate instances at the same time: C16; concurrent readers: C17.)",
"C23":"Deterministic single-owner calls on a private structure: the outcome depends on the arguments alone. (Separate instances at the same time: C16; concurrent readers: C17.)",
"C24":"Pure functions of a range, a value and a comparator: no schedule, fault or second party. (That concurrent readers may use them on a shared container is C17.)",
"C25":"Statistical and arithmetic facts about pure functions of their arguments; no schedule, clock, fault or second party.",
}
for p in props:
    if p["id"] not in T:
        na.append(dict(property=p["id"],reason=NA[p["id"]]))
m=dict(version=1,setup_cmd="./check.sh setup",
  hooks=dict(guard="none in /repo: no hook was committed there",
    enable="check.sh copies /repo's non-test sources into a scratch directory, instruments the copies (scheduling points, access records, simulated locks, clock, random source and hash) and builds them with the simulator; /repo itself is only read",
    source_commits=[]),
  checks=checks,not_applicable=na,
  notes="Fixes of genuine defects are listed in KNOWN_FINDINGS.txt. ./check.sh replay FILE repeats a recorded violation. VERIF_REPO points a check at another tree.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
