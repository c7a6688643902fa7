import json,subprocess
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
NA={"C20":"Pure function of its input (key encoder): no schedule, clock, I/O, randomness or second party for a simulation to control. Deciding it needs an input-space technique (property testing or proof), which this task excludes; whole-system runs with adversarial keys (C05) exercise it incidentally.",
"C21":"Pure numeric functions of two vectors: nothing nondeterministic for a simulation to control. Searches in C03/C15/C16 recompute scores with an independent reference for the vectors they draw, which exercises it incidentally."}
NOTE={
"C01":"insert/rebalance/expiry/config workload on 1-4 nodes under partitions, loss, pauses, resets; the union of all nodes' stores is compared with the acknowledged inserts",
"C02":"at every acknowledgement the stores of all nodes are inspected for R copies; crash phase kills R-1 nodes afterwards",
"C03":"answers are compared with an executable reference search over the union of all stores",
"C04":"response times measured on the simulated clock with hung, slow and partitioned peers; content compared with the reference over the reachable nodes",
"C05":"histories of concurrent inserts, deletes and reads are checked for linearizability per key with porcupine, through gRPC and on the data package directly",
"C06":"every read of every entry is compared with the interval in which its lifetime can end, on simulated clocks with skew and jumps",
"C07":"every observed configuration must be one submitted, monotone per node, converged after faults",
"C08":"crash at every file-system call or step, torn/lost unsynced writes, disk errors; registry compared after restart",
"C09":"seed topologies, start orders, crash/restart and partition sequences; reach, forgetting and self-contact are checked",
"C10":"all search messages on the simulated network are counted per node and query identifier",
"C11":"streams with slow, cancelled and concurrent readers compared with the set stored throughout",
"C12":"reported statistics compared with a recomputation from the streamed store; admission compared with reported count",
"C13":"SIGTERM at arbitrary instants with refusing, full, hung, partitioned peers; union of survivors compared with acknowledgements; exit status and time",
"C14":"extreme and malformed requests mixed with ordinary ones under all faults; panics, exits, deadlocks and lost service are violations",
"C15":"cached answers compared with the reference evaluated on every store state inside the cache window",
"C16":"annoy index behind a lifetime checker; approximate answers checked for soundness and, with large limits, completeness",
"C17":"every simulated file-system mutation is checked against the allowed directories under hostile dataset names",
"C18":"every removal by rebalancing is observed through the stores and compared with the threshold",
"C19":"loaded node plus emptier peers on a healthy network for hours of simulated time; copies must arrive, equal to the originals",
"C22":"goroutines and connections of every node counted before and long after requests of all kinds under faults",
}
checks=[];na=[]
import os
impl=set(subprocess.run(["grep","-rhoE",r'AddProp\(&Prop\{ID: *"C[0-9]+"',"/verif/sim/h"],capture_output=True,text=True).stdout.replace('"',' ').split())
for p in props:
    i=p["id"]
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if i not in impl: na.append(dict(property=i,reason="check not built yet")); continue
    checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",
      technique="deterministic simulation with fault injection (seeded schedule and fault search over the whole system)",level="exploration",
      level_note="Seeded search, not exhaustive: "+NOTE[i]+". Runs the repository's own code, rewritten at build time so that goroutines, locks, clock, network, disk and randomness belong to the simulator; trusts the rewriting, the simulated network/disk semantics and the oracle."))
json.dump(dict(version=1,setup_cmd="bash build.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: the seams are made by rewriting a copy of its packages at build time (instr/). All commits in /repo are fix: commits."),open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),[x["property"] for x in na])
