"""Writes MANIFEST.json."""
import json, subprocess
TECH = {
 "codec": "property-based testing (rapid): generated values and byte strings against a reference codec",
 "ring": "stateful property-based testing with generated schedules (controlled scheduler), shrinking to a minimal schedule",
 "conn": "stateful property-based testing with generated calls, broker behaviour, faults and schedules (controlled scheduler, simulated transport) against a reference broker model",
 "tls": "property-based testing over real loopback sockets against a model of the options",
 "sock": "property-based testing of generated histories over real loopback sockets with an invariant on what is held (live heap, goroutines)",
 "race": "property-based testing of generated concurrent histories under the Go race detector",
}
NOTE = {
 "C01": "Every (message type, declared version) pair gets its own share of generated values; bytes compared with an independently written reference encoder. Trusts the reference schema. Values to 3 MB. Sampled values, not a proof.",
 "C02": "Every (message type, version) pair; reference bytes decoded and compared field by field, consumption checked with stray bytes behind. Trusts the reference schema.",
 "C03": "Every (message type, version) pair and every primitive; Size against the bytes really written.",
 "C04": "Every (message type, version) pair with hostile lengths at every length site, mutated and random bytes; outcome compared with the reference decoder, panics caught, allocation measured. Sampled inputs.",
 "C05": "For each generated value all cuts (up to 600 per value) are enumerated, with three kinds of stale bytes behind the declared length.",
 "C06": "Generated sequences of primitive values (to megabytes) against a reference encoding, read back, discarded and reset.",
 "C07": "For each generated value every failing byte position (up to 400) is enumerated, with partial and full refusal, transient and permanent failures, a writer that takes everything and still errs; long values.",
 "C08": "Generated schedules at statement granularity over an instrumented copy of the ring, small rings and rings to 5000 bytes with transfers larger than they are; sequentially consistent memory assumed (races are C23).",
 "C09": "As C08; a deadlock is decided at quiescence of the controlled scheduler, never by a timeout.",
 "C10": "Generated schedules at statement granularity over an instrumented copy of the package, simulated transport, reference broker; up to 70 callers at once, histories of up to 70000 calls on one connection; several connections at once and in turn; hours of idle fake time; connections aged by moving the counter behind the correlation ids towards where it wraps. Also on real loopback sockets, plain and TLS, with long times sped up.",
 "C11": "As C10; kept responses compared with copies at the end, some callers overwrite what they got; also histories of thousands of kept responses and several connections.",
 "C12": "As C10; the byte stream the broker receives is parsed by the reference codec; requests beyond the write buffer, up to 70 callers, long histories. Also on real loopback sockets, plain and TLS.",
 "C13": "As C10, with one generated fault (kind, byte position, step); verdict at quiescence of the controlled scheduler, on sockets after 20 s. The 'no goroutine remains' part counts the goroutines of the instrumented package. Also on real loopback sockets, plain and TLS.",
 "C14": "Generated version tables plus every API alone with every maximum and minimum, against the specification function.",
 "C15": "Every (API, version) pair with generated requests and responses; request frame and decoded reply compared.",
 "C16": "Generated clusters against a model of the lookup; dials are recorded by a simulated network; clusters up to dozens of brokers, topics and partitions.",
 "C17": "Generated clusters with failing nodes; order of dials, outcome and open sockets compared with the model; also over real loopback sockets.",
 "C18": "Generated batches parsed by an independent magic-2 parser.",
 "C19": "Real TLS on loopback; generated certificates, configurations and option lists against a model of what must succeed. Only the stalled and slow handshake tests depend on time, with wide margins. Also on real loopback sockets, plain and TLS, with long times sped up.",
 "C20": "Response sizes to 33 MB around powers of two and internal buffer sizes; byte-for-byte comparison. Also on real loopback sockets, plain and TLS.",
 "C21": "Generated requests with over-long strings in every string field; frames and other calls compared with the model.",
 "C22": "Generated malformed and surplus bodies; other calls must be unaffected.",
 "C23": "Race detector over generated concurrent histories: finds races in accesses the histories make, independent of their actual order in most cases; no proof of absence.",
 "C24": "Generated mixes of acks 0/1/-1 and other calls, with write failures; verdict at quiescence.",
 "C25": "Generated clusters, queries and faults against a model; each answer is numbered and matched with at most one call.",
 "C26": "Histories of 20000 calls per part (one mix of outcomes) on one connection, and of connections and client operations; the live heap after collection and the number of goroutines after the third part are compared with those after the first. Leaks below about 3 bytes per call or 4 kB per connection are not seen.",
 "C27": "Real sockets; a broker stalls at a generated point (not accepting, handshake, mid-response) and the context ends there, races with success, or ends afterwards. Promptness is judged by a bound of 20 s for work of milliseconds.",
}
import sys
sys.path.insert(0, "/verif")
import check
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    kind = check.PROPS[i][0].split(":")[0]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH[kind],
                   "level": check.LEVEL.get(i, "exploration"), "level_note": NOTE[i]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "verif (Go build tag)", "enable": "go test -tags verif", "source_commits": [subprocess.run(["git", "-C", "/repo", "rev-parse", "e6eabf5"], capture_output=True, text=True).stdout.strip()]},
     "checks": checks, "not_applicable": [],
     "notes": "check.py --replay FILE re-runs one failing case. Exit 2 means no answer (build failure, time limit)."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
