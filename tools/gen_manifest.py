#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
base="seeded pseudo-random search over schedules, network behaviour and faults in a deterministic simulation; the code under test is /repo/src itself, translated source-to-source onto a simulated runtime, network and disk; "
note={
"C01":"whole client served to several scripted peers at once; every uploaded block is compared with the torrent's content and with the outstanding requests of its connection",
"C02":"whole client; each valid request must be answered exactly once and in order under any segmentation, mix and schedule drawn",
"C03":"whole client against adversarial byte streams and disconnects; a control peer must be served in bounded time throughout",
"C04":"whole client; handshakes of every shape, segmentation and timing; the reply is compared byte by byte with the expected one",
"C05":"whole client started on generated disk states, with read errors, short reads, process crashes and power loss; have-set compared with the hashes of what is on disk",
"C06":"whole client started with storage errors and crashes at any file operation; file contents compared before, during and after",
"C07":"piece storage driven concurrently through its API under injected disk errors, against an array-of-pieces model",
"C08":"piece storage crashed at any file operation, then the client restarted on what is left, repeatedly, against the set of acknowledged pieces",
"C09":"rate limiter through its API and inside the whole client; admission times checked against the stated bound",
"C10":"rate limiter through its API and inside the whole client; data, errors and progress of every transfer checked",
"C11":"piece tracker driven concurrently through its API; histories searched for a linearization against a small reference model; also the requests seen on the wire of the whole client",
"C12":"piece tracker driven through its API with histories up to several hundred holders, against a reference model; also the requests seen on the wire of the whole client",
"C13":"connection reader driven through its API over a simulated connection; delivered chunks compared with what was received",
"C14":"whole client and the connection reader alone; after every ending the simulator's list of sockets and tasks is inspected",
"C15":"whole client over up to hours of simulated connection time",
"C16":"whole client with stalled, slow and vanished peers beside live ones, with and without an upload limit",
"C17":"whole client dialing scripted peers with every dial outcome and handshake behaviour",
"C18":"whole client; request messages on the wire compared with the torrent's geometry, the announcements and each other",
"C19":"whole client against a simulated tracker with every fault; the announce and the following dials compared with the truth",
"C20":"whole client started on honest, corrupted and hostile torrent files; every path operation checked",
"C21":"metadata creation under short reads and disk errors, compared with an independent computation and read back through piece storage",
"C22":"whole client with bursts of accept failures",
"C23":"whole client; the byte stream received by every peer is parsed strictly",
"C24":"piece storage driven concurrently through its API with close and move under injected errors, against a model",
}
trust=" Assumes that the translation preserves meaning and that the simulated kernel, network and disk behave as modelled (DESIGN.md); interleavings are sequentially consistent, at statement granularity."
na={
"N01":"a pure function of its input: no schedule, time, I/O or fault for the outcome to depend on; simulation would only be input fuzzing (decoding of hostile torrent files and tracker answers is exercised under C19 and C20)",
"N02":"a pure function of the torrent file's bytes; nothing for a scheduler or a fault to influence",
"N03":"pure encoding and decoding functions; their use on live connections is decided under C02, C03, C18 and C23",
"N04":"a single-caller data structure without time, I/O or concurrency",
"N05":"a pure parsing function of the command line",
"N06":"single-caller containers; their use under concurrency is decided under C11 and C12",
}
m={"version":1,"setup_cmd":"tools/setup.sh","checks":[{"property":p,"quick_cmd":"./check %s quick"%p,"thorough_cmd":"./check %s thorough"%p,
 "technique":"deterministic simulation with fault injection (seeded schedule and fault search)","level":"exploration",
 "level_note":base+n+"."+trust} for p,n in sorted(note.items())],
 "not_applicable":[{"property":p,"reason":r} for p,r in sorted(na.items())],
 "notes":"No hooks in /repo: the checks translate /repo/src onto the simulator at build time. known-findings.txt lists repaired defects."}
with open(os.path.join(V,"MANIFEST.json"),"w") as f:
    json.dump(m,f,indent=1); f.write("\n")
