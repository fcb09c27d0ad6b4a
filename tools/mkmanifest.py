#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and units.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from units import UNITS
TECH = {
    "C01": "exhaustive enumeration of configurations x strains on the real code against a reference FE model",
    "C02": "exhaustive enumeration of configurations and committed histories against the exact tangent of a reference model",
    "C03": "exhaustive enumeration of committed strain histories in lockstep with a reference J2 cell model",
    "C04": "all operation words in lockstep with an interface model (trial/committed states)",
    "C05": "all operation words over several Gauss points in lockstep with an interface model of independent points",
    "C06": "all interleavings of two instances, all orders of instances and all memory fill patterns, identical results",
    "C07": "all operation words and threshold ladders in lockstep with an interface model",
    "C08": "all operation words with queries as letters and all query insertions, against a model where queries do nothing",
    "C09": "all operation words and configurations, output fields against a reference model",
    "C10": "exhaustive enumeration of configurations x axis permutations and mirrors x histories",
    "C11": "exhaustive enumeration of configurations x scalings x superpositions; closed-form patch answers",
    "C12": "exhaustive enumeration of grids, elements, entries, subsets and add/zero sequences against a dense model",
    "C13": "exhaustive enumeration of grids and assemblies, whole matrix against a dense model",
    "C14": "exhaustive enumeration of systems, starts, tolerances and iteration limits, residuals from a dense model",
    "C15": "exhaustive enumeration of grids and of output call words against a model of the directory",
    "C16": "all operation words with reports as letters in lockstep with an interface model",
    "C17": "all wrapper call words compared with the C++ interface call by call",
    "C18": "exhaustive enumeration of configurations and call words under memory, undefined-behaviour and allocation monitors",
    "C19": "exhaustive enumeration of grids, lengths, widths and exact ties",
    "C20": "exhaustive enumeration of configurations and committed histories, reports judged against a reference model",
    "C21": "all call words with every argument in protected pages, identical results to ordinary arrays",
    "C23": "exhaustive fault injection: every kind of file trouble during every interval of calls, results compared bit for bit",
    "C24": "exhaustive crash points: the directory judged after every system call of every call word",
    "C25": "stateless exploration of two real threads under a controlled scheduler with a preemption bound, every basic block a scheduling point, plus a race monitor",
    "C26": "exhaustive exploration of call words on the real code with the whole visible process state compared after every call",
    "C27": "exhaustive exploration of host settings over every interval of calls on the real code, bitwise comparison with the undisturbed run",
    "C22": "exhaustive enumeration of configurations, phase and grid changes and committed histories against energy inequalities",
}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    b = UNITS[p]["bounds"]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique="model checking: " + TECH[p], level="model_checking",
                       level_note="Bounded exhaustive exploration of the real code. Quick bounds: " + b["quick"] + ". Trusts the reference model in harness/ and IEEE arithmetic; nothing is claimed outside the bounds."))
m = dict(version=1, setup_cmd="g++ --version >/dev/null && valgrind --version >/dev/null && python3 -m py_compile check.py units.py && mkdir -p evidence",
         checks=checks, not_applicable=[],
         notes="No hooks in /repo: all checks drive the public interface. 16 genuine defects were repaired in 'fix:' commits, see known_findings.txt and DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
