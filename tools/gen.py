#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LEVEL_NOTE = ("Seeded search over schedules, timings and fault sequences of the real client code (every statement of the library is a "
  "preemption point, virtual time, simulated TCP) against an executable broker model; {n} Held means: on every executed seed. "
  "Trusted: the simulator runtime, the source instrumentation, the broker model, the oracle.")

def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None), _note=note)

S, I, F, H, C, CP = "schedules", "inputs", "fault_sequences", "histories", "configurations", "crash_points"
MOCK = "The existing tests replace the network, the brokers or the method under test by mocks and run one fixed sequence; "

props = [
P("P01", "On a healthy cluster every message is appended once, intact and in order",
  "While the brokers and the network work, every message for which adding it reported no error, by however many goroutines it was added, is appended to the log of its partition exactly once, with the key and value it was given, at consecutive offsets within its batch, and messages added one after the other by the same caller to the same partition keep their order (messages without key only if acknowledgements are requested). "
  "No produce request carries more messages than the configured batch size, and a message is appended no later than the flush interval (plus the time of a request) after it was added. Adding, flushing and closing return, and never crash the process.",
  [S, I, C], "all interleavings of adders, the flush timer and the sender; all keys (null, empty, long), values, batch sizes, flush intervals, compression codecs, acknowledgement levels and produce versions; response fragmentation and latency",
  MOCK + "no test sends a message to a broker that checks what arrived, and none runs the flush timer against concurrent adders.",
  ["simple_producer.go", "producer.go", "produce_request.go", "record.go", "broker.go"],
  [("buffer swap under lock", "SimpleProducer.AddMessage / Flush"), ("flush timer", "SimpleProducer constructor goroutine"), ("record batch encoding", "RecordBatch.Encode, Record.Encode")],
  "oracle: the model's log compared with the history of calls, record by record.",
  [("messages", "messages waiting for the next flush", "SimpleProducer")], ["broker log", "return value of AddMessage/Flush"]),
P("P02", "Under faults nothing is duplicated or invented, and success is truthful",
  "Whatever the network, the brokers and the leadership of partitions do, each added message is appended at most once, nothing that was not added appears in a log, and a batch whose sending reported success (with acknowledgements requested) is in the log. "
  "A failed sending is reported to a caller that waits for it. Once the faults have stopped, new messages are delivered again within a bounded time, and no call hangs or crashes.",
  [S, F, CP, I], "all interleavings and all sequences of connection loss at any byte, stalls, delayed answers, broker crashes, partitions and heals, error codes in responses, leader changes",
  MOCK + "connection loss in the middle of a produce exchange is not exercised at all.",
  ["simple_producer.go", "broker.go", "brokers.go"],
  [("a connection is dropped after any transport failure", "Broker.roundTrip"), ("the error of a flush is returned", "SimpleProducer.AddMessage, Flush"), ("leader lookup after failure", "SimpleProducer.flushMessages")],
  "oracle: at-most-once and reported-result checks of the model's log against the call history, bounded recovery after the last fault."),
P("P03", "A message with a key always goes to the partition its key hashes to",
  "Messages added with the same non-null key go to the same partition, the one selected by the documented hash of the key modulo the number of partitions of the topic (when partitions are added: their new number once the metadata has been refreshed), whatever other keys, goroutines, leader changes and refreshes there are. Messages with the same key added one after the other are appended in that order.",
  [S, I, F], "all keys, numbers of partitions, concurrent adders and metadata refreshes",
  MOCK + "the hash is tested on a few keys, never the partition in which a message lands while metadata changes.",
  ["producer.go", "producer.go", "simple_producer.go"],
  [("hash modulo partitions", "Producer.getSimpleProducer"), ("one sender per partition", "Producer.pidToSimpleProducerPool")],
  "oracle: reference hash computed independently, compared with the partition of every record in the model's logs."),
P("P04", "Closing a producer flushes it, ends in bounded time and releases everything",
  "Closing a producer at any moment returns within a bounded time, hands every message accepted before to the brokers (when they can be reached), and afterwards the producer accepts no message silently, sends nothing, and has released its goroutines, timers and connections. Closing twice or concurrently with adders does no harm.",
  [S, F, CP], "all moments of closing relative to adders, timer, requests in flight and faults",
  MOCK + "closing is never combined with concurrent adders, and leaked goroutines are not looked for.",
  ["simple_producer.go", "producer.go", "brokers.go", "broker.go"],
  [("final flush", "SimpleProducer.Close"), ("refresh goroutine stops", "Producer.Close"), ("connections closed", "Brokers.Close")],
  "oracle: goroutines, timers and connections owned by the client after Close, requests in the model's history, log contents."),
P("P05", "A producer follows its partitions to new leaders",
  "When the leader of a partition changes, messages for it, with or without key, reach the new leader within the metadata refresh interval plus a bounded time; partitions whose leader did not change are not disturbed (their messages are neither rejected nor lost), even while another partition has no leader, and no message is stored twice.",
  [S, F, H], "all sequences of leader changes, crashes of old leaders, stale metadata, and adders",
  MOCK + "no test changes a leader while a producer runs.",
  ["producer.go", "simple_producer.go", "brokers.go"],
  [("metadata refresh", "Producer.refreshMetadata"), ("senders of moved partitions are replaced", "Producer.updateCurrentProducer / refresh")],
  "oracle: time between leader change and first append at the new leader, log against call history."),
P("C01", "A consumer delivers exactly the log, in order and intact",
  "From its start position on, a consumer delivers every record the log still holds, exactly once, in offset order, with the key, value, headers, timestamp, offset, topic and partition it has in the log, and delivers nothing else, in particular no transaction markers. "
  "This holds for every record format and compression codec the brokers may return, for logs with gaps and emptied batches left by compaction, for responses cut at any byte by the size limit or the network, and across reconnects and leader changes.",
  [S, I, F], "all logs (three record formats, four codecs, compaction, retention, markers), fetch sizes, response fragmentation, connection losses at any byte, and application pacing",
  MOCK + "the decoder is tested on a handful of complete responses held in memory, never across fetches, gaps or reconnects.",
  ["simple_consumer.go", "fetch_response.go", "message.go", "record.go"],
  [("stream decoding", "fetchResponseStreamDecoder"), ("position advances with delivery", "SimpleConsumer.consumeMessages"), ("filtering below the position", "filterAndPutMessage")],
  "oracle: every delivered message compared with the archive of all records ever written to the model's log; completeness once caught up."),
P("C03", "A consumer resumes after faults",
  "After broker crashes, connection losses, stalls, network partitions, leader changes and error answers have ended, a consumer goes on delivering within a bounded time without being restarted, from exactly where it was. Starting a consumer during faults succeeds or reports an error, in bounded time.",
  [S, F, H], "all fault sequences that end, at all points of fetching, offset lookup and leader lookup",
  MOCK + "one test loses a connection once; a leader that stays away is never tried.",
  ["simple_consumer.go", "brokers.go", "broker.go"],
  [("leader rediscovery", "SimpleConsumer.getLeaderBroker"), ("reconnect", "Broker.ensureOpen"), ("offset reset", "consumeMessages")],
  "oracle: liveness bound of 150 simulated seconds after the last fault."),
P("C04", "Stopping a consumer ends delivery in bounded time and releases everything",
  "Stopping a consumer, at any moment, once or repeatedly, also while it is starting, while the application does not read, or while brokers are unreachable, returns within a bounded time. Afterwards at most the messages already handed over can still be read, no further request is sent, and its goroutines, timers and connections are gone.",
  [S, F, CP], "all moments of stopping relative to start-up, fetches, decoding, delivery, offset lookups and faults",
  MOCK + "stopping is only tried in the middle of steady delivery.",
  ["simple_consumer.go", "consumer.go", "group_consumer.go"],
  [("cancellation", "SimpleConsumer.ctx, stop"), ("waiting for all goroutines", "SimpleConsumer.consumeLoopWg")],
  "oracle: messages received, requests in the model's history, goroutines, timers and connections owned by the client after the stop."),
P("C05", "A consumer with a group id commits its progress and resumes from it",
  "A consumer with a group id (of one partition, of topics, or as a group member) that commits automatically has committed what it has handed over within the commit interval plus a bounded time, also after the coordinator moved or was unreachable for a while, and when it is stopped on a healthy cluster everything it had handed over is committed. Without automatic commits only CommitOffset commits, and on a healthy cluster everything handed over before it was called is committed when it returns. "
  "The committed offset never lies beyond what was handed over and, on a healthy cluster, never goes back, so that a consumer started again goes on exactly there.",
  [S, F, H], "all interleavings of handing over, commit timers, explicit commits and stopping, with coordinator moves, connection losses and broker crashes",
  MOCK + "no test commits an offset and looks at where it arrives.",
  ["simple_consumer.go", "consumer.go", "group_consumer.go", "offset_commit_request.go"],
  [("commit timer and final commit", "SimpleConsumer.Consume commit goroutine"), ("explicit commit", "SimpleConsumer.CommitOffset, GroupConsumer.CommitOffset"), ("coordinator lookup", "SimpleConsumer.getCoordinator")],
  "oracle: offsets committed in the model compared with the hand-over events, at every commit, within the bound, and after the stop."),
]

exec(open(os.path.join(root, "tools", "props2.py")).read()) if os.path.exists(os.path.join(root, "tools", "props2.py")) else None

na = []
try:
    exec(open(os.path.join(root, "tools", "na.py")).read())
except FileNotFoundError:
    pass

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props + [n["p"] for n in na]:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="none: the checks instrument a scratch copy of the working tree; /repo holds no hooks",
             enable="sim/build.sh copies /repo's working tree to a scratch directory, rewrites concurrency, time, network and randomness in the copy to the simulator's runtime (sim/gen), and builds it together with sim/rt",
             source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
    technique="deterministic simulation with fault injection, seeded schedule and fault search", level="exploration",
    level_note=LEVEL_NOTE.format(n=p["_note"])) for p in props],
  not_applicable=[dict(property=n["p"]["id"], reason=n["reason"]) for n in na],
  notes="One seed is one exactly repeatable execution. Replay: bash replay.sh FILE. Known findings and fixed defects: known-findings.txt.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
for p in props + [n["p"] for n in na]:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
