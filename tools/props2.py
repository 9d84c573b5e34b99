props += [
P("C02", "A consumer starts where it was told, and resets the same way",
  "A consumer told to start from the beginning starts with the oldest record the log holds, one told to start at the end delivers everything appended after its start position was determined, one given an offset starts exactly there, and one with a group id and a committed offset starts exactly at the committed offset (without one, at the end it was told). "
  "When its position falls out of the range of the log, it goes on at the end of the log it was told to start from. A failed offset lookup is repeated and never replaced by a made-up position. A consumer of a whole topic does so for every partition.",
  [S, I, F], "all logs with truncated beginnings, committed offsets, start positions, retention running while the consumer is stopped, starting or fetching, and faults during each lookup",
  MOCK + "the position lookup is mocked away wherever consuming is tested.",
  ["simple_consumer.go", "consumer.go", "offset_request.go", "offset_fetch_request.go"],
  [("initial offset", "SimpleConsumer.initOffset, getCommitedOffet"), ("reset on OFFSET_OUT_OF_RANGE", "SimpleConsumer.consumeMessages")],
  "oracle: the first delivered record compared with the start the model's log and committed offsets imply, within the window of the lookups."),
P("G01", "No offset is committed beyond the messages that were handed over",
  "Every offset committed for a group, automatically or by CommitOffset, is at most one more than the highest offset of that partition that had been handed to the application by that consumer before (records that no longer exist in between aside), is never negative, and carries the membership the consumer holds. A process that crashes at any moment therefore loses no message: its successor is given everything the dead process had not been given.",
  [S, CP, F], "all interleavings of fetching, handing over, commit timers, explicit commits, rebalances and crashes",
  MOCK + "what a commit request carries is not compared with what was delivered anywhere.",
  ["group_consumer.go", "simple_consumer.go", "offset_commit_request.go"],
  [("position moves after the hand-over", "SimpleConsumer.consumeMessages"), ("auto commit", "SimpleConsumer.Consume commit goroutine"), ("commit", "GroupConsumer.commitOffset, SimpleConsumer.CommitOffset")],
  "oracle: each OffsetCommit request received by the model compared with the hand-over events of that process so far."),
P("G02", "A group delivers every message at least once, without gaps",
  "While members join, leave, crash, are cut off and come back, every record of the consumed topics from the group's start position on is delivered to some member; within one ownership of a partition a member delivers its records in offset order without gap or repetition, starting exactly at the committed offset (or the configured end of the log if there is none). Once disturbances end, everything appended is delivered within a bounded time.",
  [S, F, CP, H], "all histories of joins, leaves, crashes, partitions, coordinator moves, leader changes and added partitions",
  MOCK + "no test has two members, or a rebalance.",
  ["group_consumer.go", "simple_consumer.go"],
  [("stop before rejoin", "GroupConsumer.restart"), ("start at committed offset", "SimpleConsumer.getCommitedOffet"), ("new partitions are noticed", "GroupConsumer.refreshMeta")],
  "oracle: union of deliveries of all members against the model's logs, per-session continuity from the OffsetFetch answers."),
P("G03", "Each partition belongs to exactly one member, which alone delivers it",
  "In every generation of a group, each partition of each consumed topic is assigned to exactly one member, one that consumes the topic, however many members, topics and partitions there are. A member delivers only messages of partitions assigned to it in its current generation, and none while it is rejoining.",
  [S, F, H], "all histories of membership changes with members consuming the same or different topics, and partitions added meanwhile",
  MOCK + "the assignment function is tested on its own; that members act on it during rebalances is not.",
  ["group_consumer.go", "assign.go"],
  [("range assignment", "rangeAssignmentStrategy.Assign"), ("consumers are stopped before rejoining", "GroupConsumer.restart, stop")],
  "oracle: every SyncGroup assignment the model distributes, and every hand-over, against the current generation."),
P("G04", "Closing a group consumer commits, leaves the group, and releases everything",
  "Closing a group consumer at any moment (also during start and rebalances, once or repeatedly, while the application does not read or brokers are unreachable) returns within its timeout. On a healthy cluster it has then left the group, so that the others take over at once, and with automatic commits everything it had handed over is committed. Afterwards it delivers nothing, sends nothing, and has released its goroutines, timers and connections.",
  [S, F, CP], "all moments of closing relative to joins, syncs, heartbeats, fetches, commits and faults",
  MOCK + "closing is tried once, on a member whose every request is mocked.",
  ["group_consumer.go", "simple_consumer.go", "brokers.go"],
  [("bounded close", "GroupConsumer.AwaitClose"), ("leave", "GroupConsumer.leave"), ("final commit", "SimpleConsumer.Consume commit goroutine")],
  "oracle: group membership and committed offsets in the model, goroutines, timers, connections and requests after the close."),
P("G05", "A group settles after every disturbance and then stays settled",
  "After members have joined, left, crashed or been cut off, the coordinator has moved, connections have been lost or error answers have been given, the group reaches, within a bounded time and without being restarted, a stable generation that consists of exactly the live members and covers all partitions, including ones added to the topics since. An undisturbed group does not rebalance.",
  [S, F, H], "all fault sequences that end, at all points of joining, syncing, heartbeats and coordinator lookup",
  MOCK + "errors of single calls are tested, never whether the member gets back into the group.",
  ["group_consumer.go", "brokers.go", "broker.go"],
  [("rejoin loop", "GroupConsumer.joinAndSync"), ("heartbeat", "GroupConsumer.heartbeat"), ("coordinator rediscovery", "GroupConsumer.getCoordinator"), ("metadata refresh by the leader", "GroupConsumer.refreshMeta")],
  "oracle: the model's group state within 240 simulated seconds after the last disturbance, and generations counted afterwards."),
P("B01", "Every answer belongs to its request, and every error answer is reported",
  "Whatever an application asks the brokers through this client (metadata, offsets, coordinators, committed offsets, groups, configurations; from one or many goroutines sharing the connections), a call that reports success returns exactly what the asked broker answered to that very request: no field, entry or error code is lost, changed or taken from the answer to another request, even after timeouts, delayed answers and reconnects. An answer that carries an error makes the call fail. On a healthy cluster every such call succeeds.",
  [S, I, F], "all interleavings of callers on shared connections, all API version ranges offered by the brokers, fragmentation, delays and losses at any byte, error codes",
  MOCK + "no test has two requests on one connection, or a late answer.",
  ["broker.go", "brokers.go", "response.go", "request.go", "metadata_response.go", "offset_response.go", "offset_fetch_response.go", "list_groups_response.go"],
  [("one exchange at a time per connection", "Broker.mux, RequestAndGet"), ("a connection with an unread answer is not used again", "Broker.roundTrip"), ("decoding by version", "defaultReadParser.Parse")],
  "oracle: each returned structure compared with the facts of the model's cluster (distinct per topic, partition, group and broker)."),
P("B02", "No request waits longer than the configured timeouts",
  "A request, including the connection set-up and authentication it may need, returns a result or an error within the configured connect and request timeouts (per API where configured), also if the broker never answers, answers half, stops reading, is unreachable or drops packets silently, in every phase of the exchange. Opening and closing the connections to a cluster return in bounded time too.",
  [S, F, C], "all stalls and losses at any phase of connecting, authenticating, version negotiation, sending and receiving; all timeout settings",
  MOCK + "no test has a peer that stays silent.",
  ["broker.go", "brokers.go", "response.go", "config.go"],
  [("deadlines", "Broker.request, requestStreamingly, defaultReadParser.Read"), ("connect timeout", "Broker.createConn"), ("timeout per API", "Broker.Request")],
  "oracle: simulated duration of each call against the sum of the timeouts that apply to it."),
P("B03", "A reachable broker is found and used, however its connections failed before",
  "A cluster is reached if any of the bootstrap servers works, whatever the others are. After connections were lost, brokers restarted, upgraded to other API versions or were partitioned away, each broker that is up again can be used by the next requests without any action of the application; requests that any broker can answer are answered as long as one broker can be reached; a broker that joins the cluster later is found.",
  [S, F, H], "all sequences of crashes, restarts, upgrades, partitions and stalls that end, on any subset of brokers and bootstrap servers",
  MOCK + "reconnecting is tested with one mocked connection.",
  ["brokers.go", "broker.go"],
  [("bootstrap over the list", "NewBrokersWithConfig"), ("reopen on next use, with version negotiation", "Broker.ensureOpen, createConnAndAuth"), ("try every broker", "Brokers.Request, RequestMetaData")],
  "oracle: requests to every live broker must succeed once the faults have ended."),
P("B04", "Nothing is sent before authentication, and refused authentication is an error",
  "With SASL configured, every connection, the first ones and every reconnection, is authenticated with the configured credentials before any other request is sent on it, and the credentials are sent only after the broker accepted the mechanism. If the broker refuses the mechanism or the credentials, opening the connection fails with an error, nothing else is sent on it, and the process neither crashes nor leaks the connection. Valid credentials are accepted.",
  [S, F, I], "all credentials right and wrong, mechanisms offered, rotation, faults and error answers at any point of the handshake",
  MOCK + "only the length of the handshake request is tested.",
  ["broker.go", "sasl_handshake_request.go", "sasl_handshake_response.go", "sasl_authenticate_request.go", "sasl_authenticate_response.go", "sasl_plain.go"],
  [("authentication on connect", "Broker.createConnAndAuth, sendSaslAuthenticate")],
  "oracle: the model's brokers enforce authentication per connection and report anything sent out of order."),
P("B05", "Every request is one the broker understands, in a version both sides support",
  "Every request sent, also when the same request goes to several brokers, is repeated, or follows an upgrade of the broker, uses an API version within the ranges of both the broker it is sent to and this client, and is encoded, header and body, exactly as that version prescribes.",
  [S, I, H], "all combinations of version ranges per broker, upgrades between connections, arguments and callers",
  MOCK + "encoders are tested for single versions; never the version chosen for a broker.",
  ["broker.go", "request.go", "brokers.go", "metadata_request.go", "list_groups_request.go", "fetch_request.go"],
  [("negotiation", "Broker.getHighestAvailableAPIVersion"), ("header version", "RequestHeader.headerVersion")],
  "oracle: the model's brokers parse each request by the Kafka protocol in the version it names and reject what is malformed or out of range."),
P("B06", "Closing the connections to a cluster ends their use and releases everything",
  "Closing the set of brokers, at any moment and repeatedly, returns in bounded time; requests in progress and later ones end with an error (or, if already answered, their result), none opens a connection again, and all connections, goroutines and timers are released. Failing to open a cluster leaves nothing behind either.",
  [S, F, CP], "all moments of closing relative to requests, connection attempts and background refreshes",
  MOCK + "closing during use is not tested.",
  ["brokers.go", "broker.go"],
  [("closing", "Brokers.Close, Broker.shutdown"), ("failed start", "NewBrokersWithConfig")],
  "oracle: connections, goroutines and timers owned by the client after the close, results of later calls."),
P("A01", "An administrative change happens exactly as asked, or is reported as failed",
  "An administrative operation of the library (creating and deleting topics, adding partitions with or without chosen replicas, altering configurations incrementally or as a whole, creating and deleting ACLs, deleting groups, electing leaders, changing replicas) that reports success has been executed by the broker responsible and has changed the cluster exactly as asked, and nothing else. One that any broker refused, for the whole request or one item of it, or whose outcome is unknown, reports an error. A valid operation on a healthy cluster succeeds, in every API version the brokers may offer; none is executed twice unless repeating it is harmless; none crashes or hangs.",
  [I, F, S, H], "all operations and arguments, error answers on every item, API version ranges, fault sequences and concurrent administrators",
  MOCK + "the tests encode or decode single hand-written packets; what a cluster does with a request and how a refusal of one item is reported is never tried.",
  ["create_topics_request.go", "create_topics_response.go", "delete_topics_request.go", "delete_topics_response.go", "create_partitions_request.go", "create_partitions_response.go", "alter_config_request.go", "alter_config_response.go", "incremental_alter_config_request.go", "incremental_alter_config_response.go", "create_acls_request.go", "create_acls_response.go", "delete_acls_request.go", "delete_acls_response.go", "elect_leaders_request.go", "elect_leaders_response.go", "alter_partition_reassignments_request.go", "alter_partition_reassignments_response.go", "delete_groups_request.go", "delete_groups_response.go", "client.go"],
  [("errors of every item", "the Error methods of the responses"), ("controller", "Brokers.Request to the controller"), ("encodings per version", "Encode methods")],
  "oracle: the content of the model cluster before and after each operation, and the requests it executed, against the operation asked for."),
P("A02", "Administrative queries report what the cluster holds, and failures as failures",
  "Listing and describing groups, configurations, ACLs, log directories, partition reassignments, topics, offsets and brokers through the library returns exactly what the brokers hold for the items asked for (members with their metadata and assignments, every configuration with its value, every matching ACL, and so on), in every API version the brokers may offer. If any part could not be had, the query reports an error; it never returns a part, or an empty answer, as if it were all.",
  [I, F, S, H], "all contents of a cluster, arguments, error answers on every item, API version ranges and fault sequences",
  MOCK + "decoders are tested on single hand-written packets; lost items, lost errors and mixed answers of several brokers are not.",
  ["client.go", "describe_groups_response.go", "describe_configs_response.go", "describe_acls_request.go", "desscribe_acls_response.go", "describe_logdirs_response.go", "list_partition_reassignments_response.go", "list_groups_response.go", "helper.go"],
  [("fan-out over brokers", "Client.ListGroups, Client.DescribeLogDirs"), ("errors of every item", "the Error methods of the responses")],
  "oracle: the returned values compared item by item with the model cluster's content."),
P("A03", "The HTTP API does what the library does, and its status tells the outcome",
  "Each request to the HTTP API is answered within bounded time by one response: status 200 with one JSON document that contains exactly what the cluster holds, or confirms a change that has been made exactly as asked, or an error status if anything failed or was refused; never 200 for a failure, nor a failure for a valid request on a healthy cluster. Concurrent requests do not affect each other, no request makes the server crash, and every request releases the connections and goroutines it used.",
  [I, F, S, H], "all routes and arguments, error answers on every item, fault sequences, and concurrent requests",
  "The HTTP handlers have no tests.",
  ["command/healer/cmd/api.go", "command/healer/cmd/apicontrollers"],
  [("handlers", "apicontrollers"), ("routing", "apiCmd")],
  "gin's network listener is replaced by calling the real engine; oracle: status and body against the model cluster's content before and after."),
P("A04", "With --auth, the HTTP API serves only requests with the right credentials",
  "While the API runs with --auth user:password, a request that does not carry exactly this user and password is answered 401, learns nothing of the cluster, and causes no request to any broker and no change, whatever requests with the right credentials are served at the same time; a request that carries them is never rejected. With --get-allowed, GET, HEAD and OPTIONS requests need no credentials, all others still do. Malformed credentials on the command line keep the server from starting.",
  [I, S, H], "all credentials (absent, malformed, prefixes, wrong user or password, containing separators), routes, methods, and interleavings with authorised requests",
  "The HTTP API has no tests.",
  ["command/healer/cmd/api.go"],
  [("authentication", "BasicAuth")],
  "oracle: status code, body, and the model's history of requests and content for each simulated HTTP request."),
P("T01", "Query commands print exactly what the cluster holds, or fail",
  "A query command (get-metadata, get-offsets, get-pending, list-groups, describe-groups, describe-configs, describe-acls, describe-logdirs, list-partition-reassignments) that ends with exit status 0 has printed exactly what the cluster holds for what was asked, in the chosen format; if the answer could not be had it ends, in bounded time, with another status (get-pending: prints nothing for the items it could not get). On a healthy cluster it succeeds. It never crashes.",
  [I, F, H], "all contents of a cluster, arguments, output formats, error answers and fault sequences",
  "The commands have no tests.",
  ["command/healer/cmd/get-metadata.go", "command/healer/cmd/get-offsets.go", "command/healer/cmd/get-pending.go", "command/healer/cmd/list-groups.go", "command/healer/cmd/describe-groups.go", "command/healer/cmd/describe-configs.go", "command/healer/cmd/describe-acls.go", "command/healer/cmd/describe-logdirs.go", "command/healer/cmd/list-partition-reassignments.go"],
  [("exit status", "rootCmd, RunE of each command")],
  "whole processes are simulated (arguments, standard output, exit status); oracle: the parsed output against the model cluster's content."),
P("T02", "Commands that change the cluster do exactly that, or end with an error status",
  "A command that changes the cluster (create-topic, delete-topics, create-partitions, alter-configs, create-acls, delete-acls, delete-groups, elect-leaders, alter-partition-reassignments, reset-offset) and ends with exit status 0 has changed the cluster exactly as its arguments say, and nothing else; in particular reset-offset has set the group's offsets of the chosen partitions to the chosen positions. If anything was refused or could not be done it ends, in bounded time, with another status. A valid command on a healthy cluster succeeds.",
  [I, F, H], "all commands and arguments, error answers on every item, and fault sequences",
  "The commands have no tests.",
  ["command/healer/cmd/create-topic.go", "command/healer/cmd/delete-topics.go", "command/healer/cmd/create-partitions.go", "command/healer/cmd/alter-configs.go", "command/healer/cmd/create-acls.go", "command/healer/cmd/delete-acls.go", "command/healer/cmd/delete-groups.go", "command/healer/cmd/elect-leaders.go", "command/healer/cmd/alter-partition-assignments.go", "command/healer/cmd/reset-offset.go"],
  [("exit status", "rootCmd, RunE of each command"), ("offset reset", "reset-offset")],
  "whole processes are simulated; oracle: the model cluster's content before and after, and the exit status."),
P("T03", "Producing commands store every line once and in order, or end with an error",
  "console-producer and simple-producer store each line of the standard input as one message without key, unaltered, however the input arrives (in pieces of any size, slowly, without final newline, with empty lines), and store nothing else; on a healthy cluster each line exactly once, in order within a partition, in the chosen partition, and with exit status 0. Under faults no line is stored twice, and with a batch size of one and acknowledgements exit status 0 means that every line is stored. If the standard input cannot be read to its end, for example for a line that is too long, the exit status is not 0 and the lines before are stored.",
  [I, S, F], "all inputs and their arrival, configurations, and fault sequences",
  "The commands have no tests.",
  ["command/healer/cmd/console-producer.go", "command/healer/cmd/simple-producer.go", "producer.go", "simple_producer.go"],
  [("reading lines", "bufio.Scanner loops"), ("flush on exit", "deferred Close")],
  "oracle: the records the model's brokers appended against the lines of the simulated standard input, and the exit status."),
P("T04", "Consuming commands print exactly the messages asked for, once and in order",
  "simple-consumer and console-consumer print the messages of the chosen partitions from the chosen position on, each once, per partition in offset order without gaps, unaltered in the chosen format (with or without offset, or as JSON with all attributes), across faults, and end with exit status 0 after the number of messages or before the stop offset they were given, and otherwise go on. Successive runs of group-consumer that end by --max-messages or an interrupt continue where the one before ended: no message is skipped, and on a healthy cluster none is printed twice; each run prints exactly as many messages as --max-messages says.",
  [I, S, F, H], "all logs, positions, limits, formats, interrupt times, sequences of runs, and fault sequences",
  "The commands have no tests.",
  ["command/healer/cmd/simple-consumer.go", "command/healer/cmd/console-consumer.go", "command/healer/cmd/group-consumer.go", "consumer.go", "simple_consumer.go", "group_consumer.go"],
  [("limits", "the printing loops"), ("commit on exit", "deferred GroupConsumer.Close"), ("interrupt", "signal handling in group-consumer")],
  "whole processes are simulated (arguments, standard output, signals, exit status); oracle: the printed lines against the archive of the model's logs."),
]
