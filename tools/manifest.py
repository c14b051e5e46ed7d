#!/usr/bin/python3
"""Writes MANIFEST.json: a check for every property that has one, the rest as not applicable"""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import properties

ASAN = "ASan+UBSan+LSan build, "
T = {
	"C01": (ASAN + "online monitor: every lookup against a longest-prefix-match reference", "exploration"),
	"C02": (ASAN + "online monitor: round trip of records against a dictionary", "exploration"),
	"C03": (ASAN + "offline checker over the recorded enumeration (order, coverage, minimality) and lookups", "exploration"),
	"C04": (ASAN + "trace checker: interleaved enumerators against a filtered reference list", "exploration"),
	"C05": (ASAN + "offline interval checker over flattened enumerations", "exploration"),
	"C06": (ASAN + "offline interval checker over enumerated bogons", "exploration"),
	"C07": (ASAN + "monitor of verification verdicts under byte-level file mutation", "exploration"),
	"C08": (ASAN + "monitor: verdict of every write cross-checked by verification, over key types", "exploration"),
	"C09": ("AddressSanitizer/UBSan/LSan with hang detection over mutated and crafted files", "exploration"),
	"C10": ("AddressSanitizer/UBSan/LSan, descriptor and context accounting over random API histories", "exploration"),
	"C11": ("I/O fault injection at every offset with a conservation monitor (bytes delivered vs. reported)", "fault_enumeration"),
	"C12": ("byte comparison under poisoned stack and heap, valgrind memcheck on write(2)", "exploration"),
	"C13": (ASAN + "online monitor against an independent parser", "exploration"),
	"C14": (ASAN + "online monitor against interval arithmetic", "exploration"),
	"C15": (ASAN + "offline interval checker", "exploration"),
	"C16": (ASAN + "trace checker against model collections", "exploration"),
	"C17": (ASAN + "online monitor against an independent formatter", "exploration"),
	"C18": (ASAN + "online monitor, exhaustive over two-byte codes", "exploration"),
	"C19": (ASAN + "scripted resolver, monitor of queries and results over mutated DNS replies", "exploration"),
	"C20": ("ASan-instrumented extension module, differential monitor against the data model, refcount accounting", "exploration"),
	"C21": ("ASan-instrumented Lua module, differential monitor against the data model", "exploration"),
	"C22": ("ASan-instrumented Perl module, differential monitor against the data model", "exploration"),
	"C23": ("offline interval and syntax checker over exported files", "exploration"),
	"C24": ("monitor of output, errors and exit codes of the command", "exploration"),
	"C25": ("scripted hostile mirrors on the loopback, monitor of requests, results and files", "fault_enumeration"),
	"C26": ("kill at every file system call, monitor of the installed path", "fault_enumeration"),
	"C27": ("allocation fault injection at every allocation under ASan with a state monitor", "fault_enumeration"),
	"C28": ("ThreadSanitizer and result comparison of concurrent threads", "exploration"),
	"C29": ("monitor of the rows stored in a stand-in for the database server that enforces the constraints of the tables", "exploration"),
	"C30": ("differential monitor of the answers of compiled databases against the rules of precedence", "exploration"),
	"C32": ("comparison of the messages received after every call of the same history under different levels, receivers and builds", "exploration"),
	"C31": ("model comparison of all tables after every command of random histories with injected failures and a controlled clock", "exploration"),
}
NOTE = {
	"exploration": "Runs the real code on generated workloads (seeded, bounded by case counts) and judges every observation; holds for what was explored. Trusts the reference model in vlib and the sanitizers.",
	"fault_enumeration": "Injects a fault at every point of the explored scenarios and judges the outcome; scenarios themselves are generated. Trusts the fault injector, the reference model and the sanitizers.",
}
NA = {}

checks, na = [], []
for p in properties.P:
	i = p["id"]
	if os.path.exists(os.path.join(ROOT, "checks", "%s.py" % i)):
		technique, level = T[i]
		checks.append({
			"property": i,
			"quick_cmd": "python3 run.py %s" % i,
			"thorough_cmd": "VERIF_TIER=thorough python3 run.py %s thorough" % i,
			"evidence_file": "evidence/%s.json" % i,
			"technique": technique,
			"level": level,
			"level_note": NOTE[level],
		})
	else:
		na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})

json.dump({
	"version": 1,
	"setup_cmd": "python3 vlib/build.py asan shared shared-plain",
	"checks": checks,
	"not_applicable": na,
	"notes": "No hooks in /repo: all monitors sit at the public interfaces, in wrapped library calls (ld --wrap) and in the sanitizers.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
