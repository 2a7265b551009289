import json
T={
'C01':("seeded simulation of request histories (mixed threads, aborts, link/file faults); refinement against a fresh process","Each seed is one history of 2-9 requests run against the real library in one forked process; each unfaulted reply is compared with the reply of a fresh process. Sampled, not exhaustive. Trusts the simulated link (models the WSTP calls the code uses) and that the reply comparison (position lists unordered) is right."),
'C02':("deterministic thread scheduling (baton scheduler, seeded preemption at basic blocks, simulated futex); results compared with solo runs","One seed is one exact interleaving of 2-4 native threads, preempted at any basic block of the repository's crates. Code of std and dependencies runs without preemption points except futex waits; weak-memory reorderings are not simulated."),
'C03':("abort injection at seeded simulated times; bounded-progress check in simulated time","Abort raised at a random basic block of a long request; the request must end within 8000 blocks plus 45% of the work done so far. The constant is far above what the code needs for the generated token and element sizes (measured maximum 2577)."),
'C04':("abort injection at seeded simulated times; prefix/refinement check against the unaborted run","Abort raised at any basic block or poll of any request kind; the reply is compared with the unaborted reply and later requests with a fresh process."),
'C05':("link fault injection at a seeded operation (one-off error or dead link); refinement against the faultless run","Every link operation of a request can be hit; the link model follows WSTP's error semantics (sticky error until cleared, dead link). Only well-formed requests (a fault on top of a malformed one is handled in the wolfram-library-link dependency)."),
'C06':("seeded fault injection into requests (malformed argument lists); checked history on the simulated link","Nine ways to malform any request, one request per run followed by a clean one."),
'C07':("simulated file system and kernel permission callback; order of recorded events checked","All file-system calls of the process go through the simulator; each is checked against the permission callbacks recorded before it."),
'C08':("simulated file system with short, interrupted, failing and lying reads; refinement against the bytes request","Open/read errors, EINTR, short reads, early end, wrong st_size, directory. Reply compared with the bytes request for the content delivered."),
'C09':("storage-fault injection into source bytes (torn, truncated, flipped, zeroed, swapped, stale blocks); reference model of text preservation and positions","Leaves are concatenated and positioned by an independent model of lines, columns, tabs and characters; encoding problems by an independent UTF-8 reading."),
'C10':("seeded simulation of session histories with an instrumented allocator; refinement against a fresh process","Arbitrary handles, repeated destroys; any free of memory the allocator did not hand out is contained and reported."),
'C11':("seeded simulation of faulted request histories with allocator, handle and link-buffer accounting","After each request no file handle or link buffer is left; heap growth across repeated histories must be zero."),
'C12':("command-line tool under a fault-injecting libc shim (short reads, EINTR, errors, torn end of input); output compared with a model run per line","The real binary runs in a child process under an LD_PRELOAD shim; expected output comes from the real parser on each line alone."),
'C13':("metamorphic simulation: same request under different random seeds, addresses, clocks and environments","All randomness and time of the process come from the simulator; heap layout is shifted."),
'C14':("seeded simulation of round trips after arbitrary histories, with both symbol spellings on the link","Containers from parses of random/damaged sources, boxes and synthetic metadata; compared with what was sent."),
'C15':("seeded simulation of requests on the simulated link; refinement against an independent encoding of the native result","The expected expression is built by an encoder of our own from the native Rust result for the same bytes and options."),
'C22':("seeded simulation with a step clock and heap accounting; bounded-progress check in simulated time, with aborts, link and read faults","Texts that repeat and nest random pieces; every request, and the one after a fault, must end within a quadratic allowance of basic blocks and heap bytes. Growth of higher order is seen only for shapes the generator builds, at up to 2000 bytes (6000 thorough)."),
}
NA={
'C16':"pure function of the input: no schedule, time, I/O or fault can change the grouping, and no reference kernel is available, so simulation has nothing to inject and no oracle",
'C17':"pure function of input and settings; leaking of settings between requests and threads, the part that depends on schedule or history, is decided under C01 and C02",
'C18':"pure function of the tree with no schedule, time, I/O or fault to vary, and no executable definition of the desugaring to compare with",
'C19':"equivalence of two builds on single inputs; nothing in it depends on schedules, time, I/O or faults",
'C20':"pure function of the input; whether issues reach the caller unaltered and independent of history is decided under C15 and C01",
'C21':"needs a Wolfram kernel to run the package code; none is installed",
}
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"./check.sh build","checks":[],"not_applicable":[],"notes":"No hooks in /repo: the simulator uses link-time seams (its own WSTP library, interposed libc calls, global allocator) and compiler-inserted basic-block callbacks. See DESIGN.md; repaired defects are in known-findings.txt."}
for i in ids:
    if i in T: m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,"evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection: "+T[i][0],"level":"exploration","level_note":T[i][1]})
    else: m["not_applicable"].append({"property":i,"reason":NA[i]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
