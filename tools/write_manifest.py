#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
T = {
 "C01": "residual monitor of the discretised transfer equation on sampled executions",
 "C02": "boundary-condition monitor on sampled executions, by Fourier mode",
 "C03": "two-sided interface monitor on sampled executions",
 "C04": "cross-output consistency monitor (moments of intensity)",
 "C05": "conservation monitor (energy budgets between depths)",
 "C06": "integral monitor: antiderivative differences against quadrature of the function",
 "C07": "metamorphic monitor: layer splitting",
 "C08": "metamorphic monitor: hand-made delta-M scaling",
 "C09": "metamorphic monitor: superposition and scaling of sources",
 "C10": "metamorphic monitor: rotations, truncations, Fourier error recomputed",
 "C11": "differential monitor over options plus bounds sanitizer on strided views",
 "C12": "differential monitor over equivalent inputs",
 "C13": "pointwise/shape monitor over evaluation patterns",
 "C14": "history and thread-interleaving monitor against pristine forked references, byte snapshots",
 "C15": "rejection/acceptance monitor under injected faults",
 "C16": "reference monitor: independent TMS recurrence and IMS quadrature",
 "C17": "reference monitor: independent Lagrange evaluation",
 "C18": "invariant monitor: radiative equilibrium",
 "C19": "metamorphic monitor: inversion and reciprocity",
 "C20": "invariant monitor: sign, bounds, monotonicity",
 "C21": "reference monitor: Planck law, band integrals",
 "C22": "identity monitor for helper routines",
 "C23": "stress monitor in extreme regimes, finiteness and analytic limits",
 "C24": "derivative monitor: automatic against spectral differentiation",
 "C25": "metamorphic monitor: cut-out slabs driven by the observed radiation",
 "C26": "reference-model monitor of the comparison helper",
 "C27": "warning and floating-point-exception monitor",
 "C28": "convergence monitor against an independent integral-equation solver",
 "C29": "metamorphic monitor: finite-difference rates under small input changes",
 "C30": "reference monitor: single-scattering limit from extrapolated albedos",
 "C32": "process-state monitor: global settings, captured output, weak references, traced memory",
 "C33": "differential monitor: the same batch observed in differently set-up processes",
 "C35": "differential monitor: independent adding-doubling solution of every mode",
 "C36": "trace-specification monitor over the logged calls of user functions, with fault injection",
 "C38": "crash-point injection at traced statements, with byte snapshots and pristine forked references",
 "C37": "allocation monitor: growth of traced peak memory with the problem size",
 "C34": "metamorphic monitor: beam along a stream versus incident radiation in it",
 "C31": "metamorphic monitor: convergence of interleaved layers to their mixture",
}
NOTE = "Seeded random workloads on the real code with an explicit oracle on every observation; sampled inputs, not all inputs."
m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --selftest",
         checks=[dict(property=k, quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % k,
                      thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % k,
                      evidence_file="evidence/%s.json" % k, technique="runtime monitoring: " + v,
                      level="exploration", level_note=NOTE) for k, v in T.items()],
         not_applicable=[])
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1)
open(p, "a").write("\n")
