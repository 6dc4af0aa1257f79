#!/usr/bin/env python3
"""Writes known_findings.json (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 (["C01", "C03"], "63343e6", "polling bodies above one read buffer, split reads, base64 padding and malformed or cut bodies were decoded wrongly, accepted or panicked"),
 (["C02"], "d0c0fe6", "poll responses did not carry the content type of their encoding"),
 (["C02"], "7f75a5c", "JSONP responses were not valid JavaScript for payloads needing escapes"),
 (["C02", "C03"], "b79fb0b", "a non-numeric JSONP index was written into the response script"),
 (["C09", "C10", "C22"], "a5604e2", "one blocked connect handler held up all sessions, sessions of a closed server stayed, close callbacks ran twice or never"),
 (["C05"], "06fbd81", "a packet that could not be written in time was dropped and the session went on without it"),
 (["C06", "C07", "C22"], "46329a1", "upgrades lost or reordered packets, an abandoned upgrade wedged or closed the session, and attempts outlived their session"),
 (["C21"], "729d444", "header values set by the application were lost or overwritten by an upgrade"),
 (["C20"], "b985ff3", "a client whose server closed or vanished ran no disconnect handler or leaked"),
 (["C09"], "6ba8d1f", "connect and disconnect handlers ran for repeated joins, for namespaces not joined, or twice at the end"),
 (["C16"], "606cb20", "events of namespaces the client had not joined ran their handlers"),
 (["C15"], "918a307", "events whose handler returns nothing were not acknowledged, duplicate and foreign acks ran callbacks"),
 (["C19"], "835c3ff", "emits panicked on nil pointers and callbacks, or left an ack callback or partial frames behind"),
 (["C17"], "c05693f", "frames of packets emitted concurrently interleaved"),
 (["C12"], "6d617d7", "an empty message preceded every msgpack packet"),
 (["C20"], "1601df6", "packets that followed the handshake at once were processed before the client had handlers, or lost"),
 (["C11", "C13"], "099d6a4", "the default decoder lost event names with escapes, leading binary acks, spaced placeholders, and lost sync after incomplete packets"),
 (["C13", "C14"], "0c73ceb", "hostile msgpack crashed the process or allocated without bound, and pointer or named map arguments were not converted"),
 (["C06"], "018312e", "a post in progress when an upgrade was confirmed could be answered 200 although its messages were dropped"),
 (["C06"], "4e44ea0", "a post that reached its session just after the upgrade was confirmed was answered with an empty 200 and dropped"),
 (["C09"], "8f1f191", "a session closed by the application just as its upgrade completed left the new connection open and never ended"),
 (["C05"], "d5ccc6d", "a client that polled at the moment a write timed out received the next message with one missing before the session was closed"),
 (["C19", "C11"], "ce339a2", "an error packet whose data is a list with a binary argument was sent as a frame that cannot be decoded, followed by a stray attachment; a nil one panicked"),
 (["C11"], "4c6b956", "the encoder changed the packet it was given, so that encoding it a second time wrote placeholders without attachments"),
]
out = []
for props, commit, what in F:
    for p in props:
        out.append({"property": p, "status": "fixed", "commit": commit, "what": what,
                    "text": f"fixed: property={p} {commit} {what}"})
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
