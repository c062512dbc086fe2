"""property -> (title, [(module, rule function)], least number of rule instances)"""
PROPS = {
    "T01": ("A closed connection stays closed and is closed once", [("streams", "close_rules")], 10),
    "T02": ("I/O completions check their status; errors close the connection", [("streams", "io_rules"), ("streams", "connect_rules")], 10),
    "T03": ("One sender and one receiver at a time, none lost", [("streams", "token_rules")], 20),
    "T04": ("Messages are conserved and byte positions are continuous", [("streams", "message_rules")], 14),
    "T07": ("Pending statistics move with the queued messages", [("streams", "stat_rules")], 9),
}
PROPS.update({
    "T05": ("Configured throughput limits govern every stream and never strand one",
            [("flow", "controller_rules"), ("flow", "quota_rules"), ("flow", "timer_rules"), ("flow", "slice_rule")], 50),
    "T06": ("Pending data per connection is bounded and resumes", [("flow", "backpressure_rules")], 10),
})
PROPS.update({
    "C01": ("A client call completes exactly once", [("calls", "gate_rules"), ("calls", "settle_rules")], 11),
    "C02": ("Responses reach their call and outcomes are reported faithfully",
            [("calls", "request_rules"), ("calls", "response_rules"), ("calls", "outcome_rules")], 10),
    "C03": ("Blocking calls wake once, callbacks run once on callback threads", [("calls", "delivery_rules")], 7),
    "C04": ("Every call has a positive time limit that is enforced", [("calls", "limit_rules"), ("calls", "expire_rules")], 12),
})
PROPS.update({
    "S01": ("Every request is answered exactly once", [("server", "answer_rules")], 16),
    "S02": ("A request runs the method it names on a completely parsed message", [("server", "dispatch_rules")], 4),
    "S03": ("The objects of a request are released exactly once", [("server", "release_rules")], 5),
    "S05": ("Overdue requests are dropped and running ones are counted", [("server", "overdue_rules")], 3),
})
PROPS.update({
    "W02": ("Messages are framed with the sizes of their parts", [("frames", "frame_rules")], 4),
    "S04": ("A response identifies its request and its outcome", [("frames", "identity_rules")], 4),
    "S06": ("Connections are accepted, limited and closed when idle", [("host", "listen_rules")], 12),
    "S07": ("Names are bound to one service or page", [("host", "registry_rules")], 5),
    "S08": ("Builtin services complete and respect the options", [("host", "builtin_rules")], 12),
    "S09": ("Text of a request cannot become a command or a path", [("host", "text_rules")], 2),
})
PROPS.update({
    "W01": ("Received bytes are cut into the messages their headers announce", [("wire", "framing_rules")], 6),
    "W03": ("JSON documents and messages are converted completely and by type", [("jsonpb", "json_rules")], 6),
    "W04": ("Compressed messages come back as they were sent", [("compress", "compress_rules")], 35),
    "W05": ("No text from a peer and no failing connection ends the process", [("errors", "exception_rules")], 20),
    "W06": ("Buffers keep every byte once and free every block once", [("buffers", "block_rules")], 23),
})
PROPS.update({
    "L01": ("Shared state is used only under its lock", [("locks", "guard_rules")], 40),
    "L02": ("Threads of the library never block each other for ever", [("locks", "deadlock_rules")], 60),
})
PROPS.update({
    "F01": ("Clients and servers start completely and stop in order", [("life", "client_rules"), ("life", "server_rules"), ("life", "end_rules"), ("life", "use_rules"), ("life", "late_rules")], 23),
    "F02": ("Thread groups run what they are given and end", [("life", "group_rules")], 15),
    "M01": ("Every timeout runs once, when it is due, erased or cleared", [("timers", "timeout_rules")], 14),
    "D01": ("A multi-server call runs on one server chosen by load; the set stays consistent", [("dyn", "dyn_rules")], 16),
})
