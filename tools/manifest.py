"""Writes MANIFEST.json from the properties that have a check in props/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "deterministic simulation: saves under injected write errors, full disk, process death at any byte or statement, concurrent saves; checked against the set of complete models",
    "C02": "deterministic simulation: seeded life histories with save/load restarts in a second process, lock-step twin comparison",
    "C03": "deterministic simulation: seeded export/import histories with file reordering, truncation, loss and write faults; twin comparison",
    "C04": "deterministic simulation: seeded histories with failed and interrupted fits, refit compared with a fresh twin",
    "C05": "deterministic simulation: seeded histories with injected failures, byte snapshots of everything the caller handed in",
    "C06": "deterministic simulation: exceptions injected at seeded points inside a fit, outcome compared with the two admissible models",
    "C07": "deterministic simulation: seeded sequences of observers with injected failures, all answers compared before and after",
    "C08": "deterministic simulation: seeded selection/edit histories over a population of models against an executable reference model",
    "C09": "deterministic simulation: seeded query histories with rejected and failing queries against a twin put directly into the current setting",
    "C10": "deterministic simulation: seeded control of every random source and of thread switches, results and generator states compared",
    "C11": "deterministic simulation: seeded chunkings with failing updates and restarts, compared with one batch fit",
    "C12": "deterministic simulation: scripted trial failures and recorded subsets against a small reference model of bagging",
    "C13": "deterministic simulation: threads under a seeded cooperative scheduler (switch at any line or bytecode of pydmd), each compared with running alone",
    "C14": "deterministic simulation: seeded histories of clusterings, sweeps and reads with injected failures, compared with a twin that went directly through the clusterings in force",
    "C15": "deterministic simulation: seeded histories in which the caller overwrites everything he handed in and some of the results, with injected failures; compared with an undisturbed twin",
    "C16": "deterministic simulation: seeded histories with injected failures lived twice, in two arrangements of the process (settings, entropy, clock); process state compared after every operation, answers between the two",
}
NOTE = (
    "Seeded search over histories, fault points and schedules on the real "
    "code; one seed is one exactly repeatable run. Assurance is that no "
    "violation was found in the runs counted in the evidence file, not a "
    "proof. Answers that the data do not determine to working precision are "
    "set aside (counted). "
)
EXTRA = {
    "C01": "Process death, write errors and full disks are real (resource limits and process exit); loss of power with unflushed caches is not modelled.",
    "C02": "save() and load() where a class offers them, pickle otherwise.",
    "C05": "Byte comparison of every array, list and dictionary handed in.",
    "C06": "Faults are exceptions at calls out of pydmd or between its lines.",
    "C13": "Interleavings at the granularity of lines or bytecodes of pydmd; numpy and scipy calls are atomic.",
}
NA = {
    "N01": "exact recovery is a pure function of one input matrix: no history, schedule, I/O or fault for a simulator to control",
    "N02": "rank selection is a pure function of the singular values: nothing for a simulator to schedule or fail",
    "N03": "the operator under a structural constraint is a pure function of the data: numerical algebra, no schedule or fault",
    "N04": "eigenvalue constraints are a pure function of one fit's data: numerical, no schedule or fault",
    "N05": "delay embedding and its inverse are a pure array function: no schedule, state or fault",
    "N06": "additivity of frequency bands is a pure function of one fitted decomposition: no schedule, state or fault",
    "N07": "optimality of amplitudes is a pure function of one fit's data: numerical optimisation, no schedule or fault",
    "N08": "equivalence of linear kernels and linear methods is a pure function of the data: numerical, no schedule or fault",
}

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"/opt/venv/bin/python check.py {pid} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python check.py {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH[pid],
                "level": "exploration",
                "level_note": NOTE + EXTRA.get(pid, ""),
            }
        )
    else:
        na.append({"property": pid, "reason": "check under construction"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py",
            "hooks": {
                "guard": "none",
                "enable": "no hooks are needed: the seams are Python's tracing "
                "facility, the global random generators, resource limits, "
                "process boundaries and user-supplied callables",
                "source_commits": [],
            },
            "checks": checks,
            "not_applicable": na,
        },
        f,
        indent=1,
    )
    f.write("\n")
