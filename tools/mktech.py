#!/usr/bin/env python3
"""Technique and level notes per property -> tools/techniques.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
W = "Held on the executions counted in the evidence, not for all inputs. Trusts the sequential model and the independent readers in /verif/harness."
on = "online monitor: an executable model of the documented API compared with every call's outcome and the queryable state"
off = "monitor over emitted objects: independent reader, every fact compared with the model of the call history"
T = {
 "C01": [on + "; exhaustive declaration-pair grid", W],
 "C02": [on + "; undefined symbols of emitted objects", W],
 "C03": [on, W],
 "C04": [on + "; differential runs with and without the refused calls", W],
 "C05": [on + "; emission gate probed after every call, sinks inspected after refused writes", W],
 "C06": [on + "; relocations of emitted objects", W],
 "C07": [off + "; second opinions of binutils and LLVM tools and partial links", W],
 "C08": [off, W],
 "C09": [off, W],
 "C10": [off, W],
 "C11": [off, W],
 "C12": [off, W],
 "C15": [off + "; second opinions of LLVM tools", W],
 "C16": [off, W],
 "C17": [off, W],
 "C18": [off, W],
 "C19": [off, W],
 "C20": [off, W],
 "C13": [off + "; artifacts at, around and beyond the extended-numbering threshold", W],
 "C14": [off + "; differential emission over every architecture, width and byte order", W],
 "C21": ["differential monitor: the bytes of repeated, concurrent, cross-process, logged and cloned emissions are compared; stress over threads and hash seeds", W],
 "C22": ["fault injection: full, limited, closed, read-only and non-blocking sinks; monitor of delivered bytes and reported errors", W],
 "C27": ["online monitor of random sequences of emissions over formats; independent readers judge the format and the recorded name", W],
 "C28": ["online monitor: every attribute read back after every step of random builder chains, equality compared pairwise", W],
 "C29": ["differential monitor: permuted and extended histories emit objects of the same meaning under an independent reader", W],
 "C30": ["differential monitor across hosts: the same histories run here and, interpreted by Miri, on s390x, i686 and powerpc; outcomes and bytes compared field by field", W],
 "C23": ["end-to-end run-time monitor: emitted objects linked by bfd, gold and lld with compiled C, run in a child; memory map, addresses, memory and results judged against an interpreter of the program", W],
 "C24": ["end-to-end run-time monitor: emitted objects linked by an independent linker and by ld64.lld, run in a child; addresses, memory and results judged against an interpreter of the program", W],
 "C25": ["sanitizers and UB interpreter: the hostile and threaded workloads run under Miri (random schedules), ThreadSanitizer with an instrumented std, and AddressSanitizer builds of the tree under test", W],
 "C26": ["crash, hang and size monitor under hostile workloads with overflow checks and debug assertions on", W],
}
NA = {}
for l in open(os.path.join(V, '..', 'properties.jsonl')):
    i = json.loads(l)['id']
    if i not in T:
        NA[i] = "check under construction"
T['not_applicable'] = NA
json.dump(T, open(os.path.join(V, 'techniques.json'), 'w'), indent=1)
