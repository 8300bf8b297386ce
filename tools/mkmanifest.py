#!/usr/bin/env python3
"""Source of MANIFEST.json: one check per harness present in harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based round trip over generated descriptor programs, reference DDS interpreter",
 "C02": "differential testing against an independent FM-94 codec over generated messages",
 "C03": "property-based round trip and reference CREX writer over generated bulletins",
 "C04": "structure-aware fuzzing and mutation of BUFR messages under ASan/UBSan",
 "C05": "grammar-based fuzzing of CREX text under ASan/UBSan",
 "C06": "property-based testing of value setting against a reference domain model",
 "C07": "stateful model-based testing of variable histories under ASan/UBSan",
 "C08": "property-based round trip of text forms against exact decimal arithmetic",
 "C09": "property-based testing of unit conversions against a reference factor table",
 "C10": "exhaustive and random generated codes against documented tables",
 "C11": "property-based testing of Varinfo against an exact integer reference",
 "C12": "generated table files and query histories against a reference parser",
 "C13": "generated table D files and queries against a reference parser",
 "C14": "generated table directories and requests against a reference ranking",
 "C15": "generated message streams with junk and truncation against a reference framing",
 "C16": "metamorphic testing: single mutations of generated bulletins must be seen by diff",
 "C17": "exhaustive and generated codes, strings and slice histories against a list model",
 "C18": "generated override histories and concurrent thread programs against sequential runs",
 "C19": "generated bitmap programs against an independent attribution model",
 "C20": "generated faulty bulletins: encode fails or decodes to the same content",
 "C21": "re-encode fixpoint over samples and generated variations, random decode orders",
 "C22": "property-based testing of the Python extension against a reference model",
 "C23": "differential testing of decode entry points and printers on generated messages",
 "C24": "generated variables driven through Lua against the C++ view",
 "C25": "stateful model-based testing of subset building",
 "C26": "generated input files through the wrep binary against the library's view",
 "C27": "generated WMO table sources through wrep-importtable, loaded back by the library",
 "C28": "property-based testing of the string functions against independent definitions",
 "C29": "generated messages through every exception class against the expected text",
 "C30": "stateful model-based testing of the file functions with injected faults and deaths, as an unprivileged user in a scratch directory",
 "C31": "generated configurations and histories of child processes, which report what they were given, against the configuration",
}
NOTE = ("Exploration of generated inputs with an explicit oracle, on a sanitizer build of /repo's working tree; "
        "finds counterexamples, does not prove absence. Trusts the reference models in /verif/harness, clang and its sanitizers.")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if any(os.path.exists(os.path.join(V, "harness", p.lower() + e)) for e in (".cc", ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
            technique=T[p], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=p, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
  notes="check.py builds /repo with clang ASan+UBSan in /verif/build (keyed by source content), links one harness per property and runs it on 8 forked workers. No hooks in /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fd:
    json.dump(m, fd, indent=1); fd.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
