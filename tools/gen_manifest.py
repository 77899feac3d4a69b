#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
E = "exhaustive bounded exploration of the real code, "
CLAIMED = {
    "C01": (E + "all stream partitions vs a frame model", "every partition of the listed streams; streams outside the alphabets are not covered"),
    "C04": (E + "all frame sequences vs a reassembly model", "every sequence over the frame alphabet up to the reported depth"),
    "C05": (E + "all frame headers and short byte strings vs an RFC 6455 header model", "all 65536 two-byte headers with boundary extended lengths, all short strings over a byte alphabet"),
    "C06": (E + "all truncation points vs a prefix model", "every prefix of every stream in the family"),
    "C07": (E + "all payload strings over a UTF-8 boundary alphabet and all close codes vs an own UTF-8 automaton", "payload bytes outside the boundary alphabet only through their class representative"),
    "C08": (E + "all frame-size sequences and limits vs an accounting model", "limits and sizes from the listed boundary sets; a message whose last fragment alone crosses the limit may go either way, as documented"),
    "C02": (E + "all messages, frame headers, writer shapes, buffer states and send histories vs an own wire encoder", "payload sizes from the boundary set, sequences up to the reported depth"),
    "C03": (E + "all roles, entry points, write partitions of the masker and header bytes for enforcement; key freshness on every enumerated history", "unpredictability itself cannot be decided by enumeration: only pairwise distinctness, byte spread and difference between processes are checked"),
    "C15": (E + "all interleavings of sends, receives, splits and shutdowns vs each direction alone", "histories up to the reported length over the listed operations"),
    "C18": (E + "all schemes, connect methods, trust stores, ports and server behaviours on a scripted loopback network, pairs of connects on one builder", "servers from the listed behaviours; TLS itself (OpenSSL) is trusted"),
    "C16": (E + "stateless exploration of the real sender and receiver under a fault injector: every schedule of short, interrupted, would-block and failing calls up to the reported number of departures", "fault schedules up to the reported number of departures from the default; would-block inside a frame is outside the property"),
    "C21": (E + "all conversion chains over a value set vs an independent value model", "chains up to the reported length, payloads from the boundary set"),
    "C22": (E + "stateless exploration of the real asynchronous codec under a scheduled transport: every readiness schedule up to the reported number of departures", "schedules up to the reported number of departures; wakeups checked through readiness accounting of the transport"),
    "C09": (E + "all combinations of request features and token lists over every server entry point vs an own validator", "requests from the product of the listed feature values; duplicate singleton headers only as listed"),
    "C10": (E + "all accept and reject histories over caller header sets vs a strict response parser", "caller values from the listed alphabets, histories up to the reported length"),
    "C11": (E + "all builder operation sequences up to a depth vs a model of the effective request", "operation sequences up to the reported depth, URLs from the listed set"),
    "C12": (E + "all combinations of response features and all single edits of the accept value vs an own validator", "responses from the product of the listed feature values"),
    "C13": (E + "all cuts of handshake plus frames, all points of taking a connection apart, vs byte accounting", "streams in the family; every pair of cuts (triples near the end of the head in the thorough tier)"),
    "C14": (E + "all keys differing in two bytes, all edits and short texts, all small header structures vs own SHA-1, base64 and list models", "values from the listed alphabets up to the reported lengths"),
    "C17": (E + "all interleavings of the handshake steps of two to four clients of different kinds against real servers on loopback, with injected accept failures", "interleavings at the granularity of client steps with the server run after each step or only at the end; kernel and OpenSSL trusted"),
    "C19": (E + "stateless exploration of the library's client against its server over a scheduled pipe: every delivery and thread schedule up to the reported number of deviations, all short message histories and agreements, all four pairings", "schedules up to the reported number of deviations from the default schedules"),
    "C20": (E + "all prefixes, ends, cuts, single-byte edits of heads and readiness schedules, blocking vs asynchronous", "heads in the family; schedules up to the reported number of departures"),
    "C23": (E + "all histories of handle operations over the ends of two live loopback connections, checked against the kernel's view of every socket after each step", "histories up to the reported length; kernel and OpenSSL trusted"),
    "C24": (E + "all error kinds at every byte of every operation under a fault injector, and all error values and conversions", "errors from the listed alphabets"),
    "C25": (E + "all requests and responses over pools of header lists, sizes and spellings, all ways to arrive, orders of looking and operation histories, vs the bytes on the wire", "header values from the listed pools; histories up to the reported length"),
}
NOT = {}
checks = [{"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
           "technique": CLAIMED[p][0], "level": "model_checking", "level_note": CLAIMED[p][1]} for p in props if p in CLAIMED]
na = [{"property": p, "reason": NOT.get(p, "check not built yet")} for p in props if p not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the harness (mc/) uses the public API only."}, open(root + "/MANIFEST.json", "w"), indent=1)
