from harnesses import H, LEVELS
TECH = dict(
    model_checking="explicit-state exploration of the real code: all histories / process and thread schedules within stated bounds",
    exploration="bounded exhaustive enumeration of inputs and configurations on the real code against a reference model",
    fault_enumeration="exhaustive enumeration of truncation points, storage limits and failing write calls on the real readers and writers")
def build(P):
    return dict(version=1, setup_cmd="python3 meta/gen.py",
        checks=[dict(property=x["id"], quick_cmd=f"python3 check.py {x['id']}", thorough_cmd=f"python3 check.py {x['id']} --tier thorough",
                     technique=H[x["id"]].get("technique", TECH[LEVELS[x["id"]]]), level=LEVELS[x["id"]],
                     level_note=H[x["id"]].get("note", "Exhaustive within the bounds stated in the evidence's rule, on the real code compiled from the working tree; "
                                "trusts the reference model in the harness, the compiler and the simulated runtimes. ") + " Assumes: " + ("; ".join(H[x["id"]].get("assumptions", [])) or "nothing further") + ".")
                for x in P if x["id"] in H],
        not_applicable=[dict(property=x["id"], reason="check not built yet") for x in P if x["id"] not in H],
        notes="check.py builds harness/<id>.cpp with the simulated MPI and OpenMP runtimes in mc/ from /repo's current sources. No hooks in /repo.")
