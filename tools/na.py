na += [
 dict(p=P("N01", "With TLS enabled every connection is encrypted and the server is verified",
  "With tls.enabled every connection to a broker is a TLS connection that presents the configured client certificate, verifies the broker's certificate against the configured authority and server name (unless told not to), and never falls back to plain text.",
  [I, C], "all certificates, authorities, server names and handshake outcomes",
  "the tests have no TLS server.",
  ["broker.go", "config.go"], [("dialling", "Broker.createConn, createTLSConfig")], "not decided"),
  reason="What decides it is the handshake of crypto/tls with certificate files, not the order of events: it does not depend on scheduling, time, delivery or crashes, and the simulator replaces the dialling function itself. Simulation could only check which arguments are passed."),
 dict(p=P("N02", "Options given as a map or struct mean the same, and invalid ones are refused",
  "A producer or consumer configuration given as map, with values as strings or numbers, gives the same effective options as the struct, options not given have their documented defaults, and an invalid configuration is refused when the client is created.",
  [I, C], "all configurations",
  "a few fixed configurations are tested.",
  ["config.go"], [("decoding", "createConsumerConfig, createProducerConfig"), ("validation", "checkValid")], "not decided"),
  reason="A pure function of its argument: no concurrency, time, I/O or other party is involved, so there is nothing for a simulation to schedule or to fail. (That the timeouts of one consumer are not changed by creating another is part of B02.)"),
]
