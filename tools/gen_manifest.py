#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the technique table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
ref = "runtime monitor on the public API: "
T = {
 "C01": ref + "operator results against a double-precision model",
 "C02": ref + "accessors and comparisons against plane geometry",
 "C03": ref + "activation values against closed forms",
 "C04": ref + "derivatives against closed forms and observed difference quotients",
 "C05": ref + "loss values against their definition, refusals observed",
 "C06": ref + "loss derivatives against definition and observed difference quotients",
 "C07": ref + "matrix state compared with a shadow table after every operation",
 "C08": ref + "results against an exact linear-algebra model",
 "C09": ref + "convolution, padding and flips against an exact model",
 "C10": ref + "call trace of the reducing closure, upsampling against a model",
 "C11": ref + "dense layer outputs against a reference forward pass",
 "C12": ref + "convolutional layer outputs against a reference forward pass",
 "C13": ref + "pooling call trace, flatten order",
 "C14": ref + "predictions against composed reference layers, bitwise repeats",
 "C15": ref + "accept/refuse decisions against a construction model",
 "C16": ref + "dense gradients against reference chain rule and difference quotients",
 "C17": ref + "convolution gradients against reference chain rule and difference quotients",
 "C18": ref + "pooling gradients against reference upsampling",
 "C19": ref + "every parameter before and after a training call against the mean gradient",
 "C20": ref + "bit patterns around refused calls, against a twin",
 "C21": ref + "draws against 128-bit integer arithmetic of the generator",
 "C22": ref + "statistics and bit equality of probed weights",
 "C23": ref + "dataset contents against a shadow list",
 "C24": ref + "batches read from generated files and split streams",
 "C25": ref + "normalisation, spectrum and repeatability of generated signals",
 "C26": ref + "exported bytes parsed back, bit equality",
 "C27": ref + "loss and accuracy against per-point evaluation",
 "C28": "concurrent runs compared bitwise with sequential ones, ThreadSanitizer, shareability probes",
 "C29": "AddressSanitizer, MemorySanitizer and Miri over the workloads of all monitors and an API fuzzer",
 "C30": ref + "outcome of deviating inputs, bitwise state after",
 "C31": ref + "twin runs bitwise, observed loss decrease against the gradient model",
 "C32": ref + "error value of single-fault calls against the fault",
 "C33": ref + "weights and seeds of both precisions against each other",
 "C34": "counting allocator, open-file and thread counts observed around repeated rounds",
 "C35": ref + "constants and conversions against exact integers and nearest rounding",
 "C36": ref + "printed text parsed back, bit equality",
 "C37": "fault injection into user functions; monitors of outcome, bit equality of predictions, twin networks",
 "C38": "monitors of original and copy through edit histories, bit equality",
 "C39": "fault injection into files; monitors of outcome and delivered points",
 "C41": "monitor of the output and files of the running example programs, averages recomputed from the reported values",
 "C40": "drop-counting values observed through edit histories against an ownership model",
}
PENDING = {}
note = ("Every verdict is an oracle observing executions. Cases are drawn from a seeded generator over shapes, "
        "values and histories; the evidence file counts what was observed. Executions outside the drawn cases are not covered.")
notes = {"C28": "Decides the schedules that occurred and the happens-before relation ThreadSanitizer derived from them.",
         "C29": "Decides the executions that were run under each sanitizer; Miri runs a smaller sample."}
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
  notes="No hooks: all monitors observe the public API. See DESIGN.md. KNOWN_FINDINGS lists repaired defects.")
for p in props:
    i = p["id"]
    if i in PENDING:
        m["not_applicable"].append(dict(property=i, reason=PENDING[i])); continue
    cmd = f"./check.sh {i}"
    m["checks"].append(dict(property=i, quick_cmd=f"VERIF_TIER=quick {cmd}", thorough_cmd=f"VERIF_TIER=thorough {cmd}",
        technique=T[i], level="exploration", level_note=notes.get(i, note)))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
