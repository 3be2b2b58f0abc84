import json
T={
"S01":("generated types and values, round trip into dirty destinations","all supported kinds with bounded depth and size; equality of values, empty and absent collections alike"),
"S02":("generated types and values, differential against an independent reference codec","byte equality in the encode direction; reference encodings with random legal liberties in the decode direction; the reference codec is trusted"),
"S03":("generated pairs of type versions and values, reference codec as oracle","fields are added at the end of objects at every nesting level"),
"S04":("fuzzing: mutated, forged, truncated and adversarial encodings; crash, time and allocation oracle","allocation is bounded by 256 KiB plus a multiple of the input length; cases are at most a few KiB and have 30 s"),
"S05":("generated kind mismatches at every field position, unsupported types and bad arguments","the statement's mismatch table is the oracle"),
"S06":("generated custom marshalers composed with other fields, round trip and reference codec","custom marshalers use the exported Encoder and Decoder only"),
"S07":("generated GUIDs and strings, canonical text grammar as oracle","non-repetition is sampled"),
"C01":("generated durations and spans, big-integer reference arithmetic","boundary values are favoured"),
"T01":("generated message histories over a simulated stream with random segmentation, sent list as oracle","virtual time; client, server and proxy roles"),
"T02":("generated messages and configurations, differential against an independent frame codec","the reference frame codec is trusted"),
"T03":("generated frames with injected bit bursts, detection guaranteed by the checksum's algebra as oracle","only errors CRC-8 and CRC-32 certainly detect are injected"),
"T04":("fuzzing: malformed frames between valid ones, crash, allocation and delivery oracle","allocations of the process are counted over several rounds"),
"T05":("generated concurrent senders on random schedules, per-goroutine order as oracle","schedules are sampled: random yields, 1 to 8 processors"),
"T06":("stateful generation of request, reply and cancellation histories against a model","quiescence decides what has not happened"),
"T07":("stateful generation with injected ends, stalls and cancellation races, virtual time","a hang is a call that has not returned at quiescence"),
"T08":("stateful generation of ping, response and stray histories against a model","virtual time"),
"T09":("generated concurrent identity allocation, uniqueness over all of them as oracle","schedules are sampled"),
"T10":("stateful generation of header operations against a model, then over the wire","header types up to 16 bits"),
"T11":("stateful generation of client histories with faults against a model","in-memory listener; virtual time"),
"T12":("stateful generation of two-way traffic through the proxy with filters and faults, model as oracle","virtual time; in-memory network"),
"T13":("generated TLS configurations and traffic against the library and an independent peer; handshake fault injection","crypto/tls is trusted"),
"T14":("generated refusals within histories, error text and closure as oracle","virtual time"),
"T15":("generated unencodable and boundary-size messages between valid ones, wire observed","sizes around the 16-bit limits are favoured"),
"L01":("generated agents and concurrent pings, independent lease message parser as oracle","the reference lease codec is trusted"),
"L02":("stateful generation of ping and response histories against a model, virtual time","quiescence decides what has not happened"),
"L03":("fuzzing: malformed lease frames and messages between valid ones, crash, allocation and isolation oracle","well-formedness as the reference parser defines it"),
"L04":("stateful generation of session and agent histories against a model","in-memory network"),
"F01":("generated triples near boundaries, big-integer ring arithmetic as oracle","ring positions are favoured near the ends"),
"F02":("generated ids and strings, big-integer parser as oracle","none"),
"F03":("generated names, independent implementation of both schemes and spread over whole blocks","the independent implementation follows the same published scheme"),
"F04":("generated partner sets and targets, big-integer ring model","in-memory dialer"),
"F05":("generated announcement histories, sequential and concurrent, against a model","schedules are sampled"),
"F06":("stateful generation of seed behaviour over virtual time against a model","the ping interval itself is not judged"),
"F07":("generated partner tables and messages, federation headers decoded by the reference codec","fewer than 100 partners"),
"F08":("stateful generation of sends, dial outcomes, disconnects and closes against a model","in-memory dialer"),
"F09":("stateful generation of concurrent routed requests, replies and cancellations against a model","virtual time"),
"F10":("generated topologies of announcements, reachability model as oracle, virtual time","answers take less than a second of virtual time"),
"N01":("generated gateway replies, good and bad, against the values sent","reference codec writes the replies"),
"N02":("generated stages of exchanges with cancellation and connection loss, virtual time","a hang is a call that has not returned at quiescence"),
"N03":("generated notification histories against the sent list","notifications that cannot be decoded are cut off ones"),
"F11":("stateful generation of joins, replies and faults against a model, virtual time","the time a query holds is not judged"),
"F12":("stateful generation of message histories among several nodes against a gossip model","what a node makes of news about itself is not judged"),
"F13":("generated message histories among nodes over the loopback network, knowledge model as oracle","real time, generous limits"),
"T16":("generated traffic and endings over the loopback network, echo as oracle; injected bad servers","real time, generous limits"),
"T17":("generated handler programs on concurrent connections, virtual time as oracle","virtual time; in-memory listener"),
"T18":("every generated history of the other properties rerun to its end in a closed world, leftover goroutines, open connections and heap growth as oracle; long repetitions of single operations","virtual time; in-memory connections; heap compared after collections"),
"L05":("generated sessions, pings and faults over the loopback network, independent peer as oracle","real time, generous limits"),
"N05":("generated calls and messages, headers decoded by the reference codec","schedules are sampled"),
"N06":("stateful generation of many clients of one gateway, gateway's record as oracle","virtual time; in-memory listener"),
"N04":("generated concurrent registrations with failures, requests seen on the wire as oracle","schedules are sampled"),
}
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert set(ids)==set(T),set(ids)^set(T)
m={"version":1,"setup_cmd":"./setup.sh","checks":[{"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":"property-based testing: "+T[i][0],"level":"exploration","level_note":"Sampled search, no proof: no counterexample among the generated cases. "+T[i][1][0].upper()+T[i][1][1:]+"."} for i in ids],"not_applicable":[],"notes":"No hooks: the checks use exported identifiers of the packages only. Defects repaired in /repo are listed in known-findings.txt."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
