import subprocess
L="""89c028d S05 decoding a char wire value into a uint8 (or uchar into an int8) field panicked
d907ab6 S04 a forged string or slice count made the decoder allocate gigabytes
c6d41d0 S04 an object whose size ends before its content was read again, exponentially often for recursive types
7f80c85 S04 objects nested a million deep exhausted the stack of the decoder and ended the process
c628c87 S06 Encoder.WriteCompressedUInt32(0) wrote nothing, so a custom marshaler's zero could not be read back
3c06f44 S05 an array of guids was accepted where a single guid is expected
df470cd C01 TimeSpan.ToDuration overflowed: the largest span became -100ns
c21a040 F01 a range that wraps past the top of the ring did not contain the ids between its start and the top
8e5a78e F02 NodeIDFromHex accepted signs and text of more than 128 bits
5d401b6 F03 NodeIDFromV4Generator panicked for names without a separator
d8a2fce T04 a forged frame length made the process panic or allocate gigabytes
6013693 T04 a message whose last header was cut off was delivered
9722fb3 T05 frames of concurrent senders interleaved
65e9e79 T15 headers longer than 65535 bytes were written with wrapped lengths
856643c T10 AppendCustomHeader did not append to values already present
84e5999 T07 a reply to a request just given up blocked the read loop
3bbf607 T13 write errors during the TLS handshake were lost and the handshake hung
026a51f T08 stray, duplicate or malformed heartbeat responses blocked, completed other pings or crashed
0536b26 T14 the authentication error and message callback were shared without synchronization
2301c6b T07 requests and pings did not end with their context while their write was blocked
3597699 T13 session tickets sent in frames the client no longer expected broke TLS 1.3 connections with client certificates
46b1000 T12 the first proxied frame was checked with the wrong configuration
3dfdd8b T12 the first proxied message bypassed the filter
801ee45 T12 the proxy left the upstream open when setting it up failed
51e32dd L03 forged lease frame sizes crashed the agent, many connect frames overflowed its stack
5201d92 L03 endpoints at the very end of a lease message were refused, others read out of bounds
e129f0e L01 frames of concurrent lease pings interleaved
50a542a L04 closing an agent left sessions open and its serving loop running; closing an old session removed a newer one
a318acd L02 pongs that arrived before a ping waited were lost
f736918 F04 messages went to the last partner iterated instead of the closest
ed8423a F05 a concurrent older announcement could replace a newer one
7be57ee F06 a phase change that came at the wrong moment was missed and bootstrapping went on
d5a14a5 F10 discovery pinged only the last node it learned of in a round
5b17b93 F07 sending a message stamped the caller's own headers, so sending it again doubled them
b8862d2 F08 a failing connection removed or closed its successor in the pool
5396e4c F09 Route outlived its context while connecting
81f0780 N02 naming calls did not end with their context
c5fcc2b N01 failure replies and missing results of application queries were not errors, or crashed
f17f3fe N01 gateway replies carrying an error code were reported as success
6308dbf F10 discovery ignored nodes with instance numbers of 0 and reported the node itself
239ecba F05 a later phase of a known partner instance was ignored
6e69429 N03 notifications that could not be decoded were acknowledged and handed to the callback
7d21024 F11 a failed neighborhood query, or one whose reply could not be decoded, was reported as success
9208b86 T16 a failed dial left its TCP connection open
a265fbe F08 a message sent when the node was closed, or just being closed, opened a connection nobody closes""".splitlines()
out=["# Defects of tg123/phabrik found by these checks. All are repaired; a fixed entry suppresses nothing.",""]
for l in L:
    h,p,w=l.split(" ",2)
    full=subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip()
    out.append(f"fixed: property={p} {full[:12]} {w}")
open("/verif/known-findings.txt","w").write("\n".join(out)+"\n")
