#!/usr/bin/env python3
"""Writes MANIFEST.json from this table."""
import json
MON = "runtime monitoring: "
T = {
 "C01": (MON + "recording model, verdict oracle on recorded residuals", "Verdicts of tens of thousands of hostile runs re-decided from the values the model returned, including tolerances equal to a met error."),
 "C02": (MON + "recording model, monitor of the writes after the last evaluation", "Every write to the model is recorded; the final state is compared bit for bit to the last evaluation."),
 "C03": (MON + "online trace specification of the model calls", "Each call is followed against what the iteration may cost."),
 "C04": (MON + "trace specification with an independent Newton step oracle", "The step is recomputed (own pivoted LU) from the recorded values; tolerance from an ensemble of perturbed matrices."),
 "C05": (MON + "trace specification of the column sweeps, jacobian recomputed", "Each column point compared to the configured dx; direct calls of the sweep on a recording model."),
 "C06": (MON + "trace specification, derivative oracles", "Derivatives from closed forms and differences on all signs of the members."),
 "C07": (MON + "trace specification carrying the rank-one updates", "The approximation is carried by the monitor from recorded values only."),
 "C08": (MON + "differential monitoring of paired resolutions", "Paired runs compared event by event; cases where rounding decides are found by perturbing the model and not judged."),
 "C09": (MON + "trace specification of the jacobian schedule", "Requests (or sweeps) of each iteration compared to the prescribed ones."),
 "C10": (MON + "trace specification of the damping decisions", "Decisions recomputed from the recorded residuals."),
 "C11": (MON + "trace specification, invariant on every proposed point", "Bounds and limits checked on every proposed point; the limitation functions called directly."),
 "C12": (MON + "fault injection at every model call, outcome oracle", "Every fault kind at every call of each generated run, and combinations."),
 "C13": (MON + "hostile models, panic and outcome monitor", "Panics, budget overruns and steps by a singular jacobian are recorded as violations."),
 "C14": (MON + "differential monitoring (reuse, nesting, threads, processes)", "Bit for bit comparison of traces; schedules are those observed on 8 cores."),
 "C15": (MON + "offline checker of the log against the recorded trace", "The log is parsed and compared to the trace value by value."),
 "C16": (MON + "differential monitoring of generated configurations", "Round trip against an independent model of the inheritance."),
 "C17": (MON + "rejection monitor on corrupted configurations", "One corruption at a time next to accepted neighbours."),
 "C18": (MON + "differential monitoring of the descriptions", "Bit for bit comparison of the recorded evaluations."),
 "C19": (MON + "reference model of the normalizations", "Values compared on special and random members, and within resolutions."),
 "C20": (MON + "bounded progress monitor (iterations)", "Bounds taken from the property, with margins measured on the unchanged tree."),
 "C21": (MON + "trace specification of the 1-D solvers, derivative oracle", "Every evaluation of the 1-D solvers followed; literature jacobians compared to differences."),
 "C22": ("sanitizers: AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri", "The workload of all the suites under each tool; a clean run says nothing of paths not driven."),
 "C23": (MON + "monitor of the memory found at each evaluation", "The memory at the start of each evaluation is compared to that of the reference point."),
 "C24": (MON + "recording step limitations and perturbations, trace specification", "Every answer of the unknowns is recorded and compared bit for bit to the proposed points; the raw steps through the trace specification."),
 "C25": (MON + "metamorphic relations between recorded runs (exact under changes of units, signs and members)", "Pairs of runs of one generated problem, every call compared; the order of declaration and the independence of gathered problems up to rounding measured by perturbed runs."),
 "C26": (MON + "reference state machine compared after each operation of random histories", "The observable state of the store compared after each operation; inverses for condition numbers below 1e8."),
 "C27": (MON + "observed processes (streams, files, threads, descriptors) and a counting allocator", "Processes of their own are observed from outside; short and long resolutions are compared in bytes."),
 "C28": (MON + "the texts of generated objects read back, and equality against objects differing by one value", "Texts are read as tables of cells and numbers; printed matrices are compared to the digits printed."),
}
checks = []
for p, (tech, note) in T.items():
    checks.append({
        "property": p,
        "quick_cmd": "./run_check.sh %s" % p,
        "thorough_cmd": "./run_check.sh %s" % p,
        "technique": tech,
        "level": "fault_enumeration" if p == "C12" else "exploration",
        "level_note": note + " Held on the executions observed, counted in the evidence file; no proof.",
    })
m = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --release --offline --quiet --target-dir ../target",
    "checks": checks,
    "not_applicable": [],
    "notes": "One program (harness/) observes the library through its public interface: models that record their calls, injected errors, an executable trace specification. The tier is taken from VERIF_TIER. No hook in /repo. Known and repaired findings: known_findings.txt. See DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
