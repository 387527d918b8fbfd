# Which harness decides which property, and within which bounds.
ASSUMPTIONS = ["The compiler's IR and the C++ standard library headers mean what they say; libstdc++.so, libc, POSIX threads and time are executable models (rt/rt.cpp, engine/builtins.cpp).",
  "Threads interleave at synchronisation operations (locks, condition variables, atomics, thread creation/end, sleeps), sequentially consistent; unordered plain accesses are reported as data races by a happens-before check."]
CHECKS = {}
def check(pid, configs, bounds="", assumptions=()): CHECKS[pid] = dict(configs=configs, bounds=bounds, assumptions=list(assumptions))
check("T1", [dict(name="smoke", harness="t_smoke.cpp"), dict(name="mt", harness="t_mt.cpp", mt=True), dict(name="library", harness="t_lib.cpp", engine={"samples": 400}, validate=70)])

T = dict(time=700)
check("D01", [
  dict(name="sequences", harness="d01_model.cpp", params=dict(ops=3), bounds="every sequence of 3 operations from the empty datagram"),
  dict(name="sequences-long", harness="d01_model.cpp", params=dict(ops=4, leaves=4, depth=0), engine=dict(time=300), thorough_only=True, bounds="every sequence of 4 operations with integer values"),
  dict(name="arbitrary-state", harness="d01_model.cpp", params=dict(ops=1, tree=3, depth=2), params_thorough=dict(tree=4), engine_thorough=dict(time=300), bounds="one operation from an arbitrary tree of 3 (4) nodes"),
  dict(name="large", harness="d01_long.cpp", params=dict(n=20), params_thorough=dict(n=40, removals=2), engine_thorough=dict(time=200), covers=["key", "index"], bounds="containers of 20 (40) items"),
  dict(name="huge", harness="d01_long.cpp", params=dict(n=300), params_thorough=dict(n=1000), covers=["key", "index"], bounds="containers of 300 (1000) items, removals at the start, middle and end")])
check("D02", [dict(name="misuse", harness="d02_misuse.cpp", params=dict(tree=3), params_thorough=dict(tree=4), engine_thorough=T, covers=["remove-index", "remove-key", "count", "clear", "absent", "past-end", "remove-past-end", "wrong-type"], bounds="one rejected operation on an arbitrary tree of 3 (4) nodes or one of its items"),
  dict(name="bulk", harness="d02_misuse.cpp", params=dict(bulk=24, deep=24, leaves=6), params_thorough=dict(bulk=100, deep=100), bounds="lists and dictionaries of 24 (100) items, as many levels, strings of as many bytes, with one arbitrary leaf")])
check("D03", [dict(name="copies", harness="d03_copy.cpp", params=dict(tree=2, leaves=31), params_thorough=dict(tree=3), engine_thorough=dict(time=450), covers=["self-nested", "message", "assign", "chain", "construct"]),
  dict(name="deeper", harness="d03_copy.cpp", params=dict(tree=3, leaves=4), params_thorough=dict(tree=4), engine_thorough=dict(time=350), covers=["self-nested", "message", "assign", "chain", "construct"]),
  dict(name="bulk", harness="d03_copy.cpp", params=dict(bulk=12, deep=12, leaves=4), params_thorough=dict(bulk=100, deep=100), bounds="lists and dictionaries of 12 (100) items, as many levels, strings of as many bytes, with one arbitrary leaf")])
check("D04", [dict(name="datagrams", harness="d04_equal.cpp", params=dict(tree=2), params_thorough=dict(tree=3), engine_thorough=dict(time=300), covers=["same-kind"]), dict(name="deeper", harness="d04_equal.cpp", params=dict(tree=3, leaves=6), params_thorough=dict(tree=4, leaves=4), engine_thorough=dict(time=400), covers=["same-kind"]), dict(name="messages", harness="d04_equal.cpp", params=dict(messages=1), covers=["messages"]),
  dict(name="bulk", harness="d04_equal.cpp", params=dict(bulk=60, deep=40), params_thorough=dict(bulk=300, deep=300), bounds="lists and dictionaries of 60 (300) items, 40 (300) levels, strings of as many bytes, with one arbitrary leaf")])
check("D05", [dict(name="lookup", harness="d05_path.cpp", params=dict(tree=3), params_thorough=dict(tree=4, keylen=2, pathlen=5), engine_thorough=T, covers=["found", "deep"]),
  dict(name="bulk", harness="d05_path.cpp", params=dict(bulk=60, deep=40, chain=1), params_thorough=dict(bulk=300, deep=300), bounds="lists and dictionaries of 60 (300) items, 40 (300) levels, strings of as many bytes, with one arbitrary leaf")])
check("D06", [dict(name="trees", harness="d06_text.cpp", params=dict(tree=3, intmax=12), params_thorough=dict(tree=4), engine_thorough=T), dict(name="integers", harness="d06_text.cpp", params=dict(tree=1, leaves=4, intmax=100000), params_thorough=dict(intmax=100000000)), dict(name="scalars", harness="d06_text.cpp", params=dict(scalars=1)),
  dict(name="bulk", harness="d06_text.cpp", params=dict(bulk=60, deep=40, intmax=12), params_thorough=dict(bulk=300, deep=300), bounds="lists and dictionaries of 60 (300) items, 40 (300) levels, strings of as many bytes, with one arbitrary leaf")])
check("S01", [dict(name="trees", harness="s01_bytes.cpp", params=dict(tree=3), params_thorough=dict(tree=4), engine_thorough=T), dict(name="large", harness="s01_bytes.cpp", params=dict(long=16), params_thorough=dict(long=32)),
  dict(name="bulk", harness="s01_bytes.cpp", params=dict(bulk=60, deep=100), params_thorough=dict(bulk=300, deep=900), bounds="lists and dictionaries of 60 (300) items, 100 (900) levels, strings of as many bytes, with one arbitrary leaf")])
check("S04", [dict(name="appends", harness="s04_buffer.cpp", params=dict(), params_thorough=dict(len=5, appends=4), engine_thorough=T, covers=["filled", "appended", "copied"]), dict(name="large", harness="s04_buffer.cpp", params=dict(len=1, appends=1, big=4), params_thorough=dict(big=32))])
check("M01", [dict(name="prefixes", harness="m01_sender.cpp", params=dict(len=4, namelen=2), params_thorough=dict(len=7, namelen=4), engine_thorough=T, covers=["recognised"])])
check("U01", [dict(name="match", harness="u01_match.cpp", params=dict(len=6), params_thorough=dict(len=24), covers=["match", "no match"])])
check("U02", [dict(name="uuid", harness="u02_uuid.cpp", params=dict(draws=9), bounds="one identifier, at most one redraw"), dict(name="pair", harness="u02_uuid.cpp", params=dict(two=1, draws=16, randpair=1), bounds="two identifiers that agree in all draws but one arbitrary one each"), dict(name="two", harness="u02_uuid.cpp", params=dict(two=1, draws=16), thorough_only=True, engine=dict(time=500))])
check("U03", [dict(name="configurations", harness="u03_config.cpp", params=dict(n=2), params_thorough=dict(n=3, len=2), engine_thorough=T, covers=["equal", "different"]), dict(name="instances", harness="u03_config.cpp", params=dict(n=1, files=1))])
check("S02", [dict(name="arbitrary", harness="s02_decode.cpp", params=dict(max=20), params_thorough=dict(max=28), engine_thorough=dict(time=250), covers=["rejected"]), dict(name="truncated", harness="s02_decode.cpp", params=dict(mode=1), covers=["rejected", "truncated"]),
  dict(name="damaged-words", harness="s02_decode.cpp", engine={"conc-addr": 1}, params=dict(mode=2), params_thorough=dict(shapes=7), engine_thorough=dict(time=350), covers=["rejected", "decoded"]), dict(name="damaged-bytes", harness="s02_decode.cpp", engine={"conc-addr": 1}, params=dict(mode=3), params_thorough=dict(first=0, shapes=7), engine_thorough=dict(time=250), covers=["rejected", "decoded"])])
check("S03", [dict(name="documents", harness="s03_json.cpp", params=dict(nodes=4), params_thorough=dict(nodes=5), engine_thorough=dict(time=450), covers=["object", "array"], bounds="every document tree of at most 4 (5) values, strings and keys up to 2 bytes"), dict(name="wide", harness="s03_json.cpp", params=dict(nodes=5, leaves=5, slen=1), params_thorough=dict(nodes=6), engine_thorough=dict(time=350)), dict(name="rejected", harness="s03_json.cpp", params=dict(bad=1), covers=["rejected"])])
check("U04", [dict(name="lines", harness="u04_log.cpp", params=dict(), params_thorough=dict(len=6, lines=3), engine_thorough=dict(time=200), covers=["lines"], bounds="two lines, prefix and message up to 3 bytes, indentation -1 to 12"), dict(name="threads", harness="u04_log.cpp", mt=True, params=dict(mt=1), params_thorough=dict(lines=2), engine=dict(preempt=3), engine_thorough=dict(time=400, preempt=4), covers=["concurrent"], bounds="two threads, one (two) lines each, at most 3 (4) preemptions")])
check("F01", [dict(name="split", harness="f01_paths.cpp", params=dict(len=7), params_thorough=dict(len=12), engine_thorough=dict(time=400), covers=["extension"], bounds="every path of up to 7 (12) bytes"), dict(name="join", harness="f01_paths.cpp", params=dict(join=1), params_thorough=dict(len=7), engine_thorough=dict(time=300), covers=["joined"], bounds="directories and names up to 4 (7) bytes")])
check("F02", [dict(name="listing", harness="f02_list.cpp", params=dict(entries=2), params_thorough=dict(entries=3, len=3), engine_thorough=T, covers=["absent", "unreadable", "several"], bounds="directories of at most 2 (3) entries, names up to 2 (3) bytes")])
check("F03", [dict(name="queries", harness="f03_env.cpp", params=dict(), covers=["failed", "reported", "overlong", "asked again"], bounds="path lengths 1 to 3000 around the internal buffer, every failure, a working directory that changed between queries"), dict(name="kinds", harness="f03_env.cpp", params=dict(paths=1), covers=["kinds"])])
check("B01", [dict(name="tree", harness="b01_delivery.cpp", params=dict(pubs=1), params_thorough=dict(msgs=3), engine_thorough=dict(time=250), covers=["several"], bounds="all trees of up to 3 buses, 1 publisher, 2 subscribers, 2 (3) messages"),
  dict(name="publishers", harness="b01_delivery.cpp", params=dict(tree=1), params_thorough=dict(tree=3), engine_thorough=dict(time=250), covers=["several"], bounds="2 buses (3 thorough), 2 publishers, 2 subscribers, 2 messages"),
  dict(name="callbacks", harness="b01_delivery.cpp", params=dict(tree=1, pubs=1, callbacks=1), params_thorough=dict(pubs=2), engine_thorough=dict(time=250), covers=["from a callback", "several"], bounds="2 buses, a callback publishes once more")])
CHECKS["B01"]["configs"] += [dict(name="identical", harness="b01_delivery.cpp", params=dict(tree=1, pubs=2, subs=1, same=1), params_thorough=dict(msgs=3), covers=["several"], bounds="indistinguishable payloads, 2 (3) messages"),
  dict(name="burst", harness="b01_delivery.cpp", params=dict(tree=1, pubs=2, subs=1, burst=40), params_thorough=dict(burst=1100), covers=["several"], bounds="40 (1100) messages waiting at once")]
check("B02", [dict(name="different", harness="b02_payload.cpp", params=dict(fresh=1, tree=1, leaves=31), params_thorough=dict(tree=2, leaves=15), engine_thorough=dict(time=200), covers=["another"], bounds="a second message with a payload of its own"), dict(name="payload", harness="b02_payload.cpp", params=dict(tree=1, leaves=4), params_thorough=dict(tree=2, leaves=31), engine_thorough=dict(time=400), covers=["publisher changes", "subscriber changes"], bounds="single values (trees of 2 nodes), any one change by the publisher or one of three subscribers, up to two messages"), dict(name="nested", harness="b02_payload.cpp", params=dict(tree=2, leaves=1, once=1), params_thorough=dict(tree=3), engine_thorough=dict(time=300), covers=["publisher changes", "subscriber changes"], bounds="containers of 2 (3) nodes"),
  dict(name="values", harness="b02_payload.cpp", params=dict(tree=2, leaves=4, once=1, plain=1), params_thorough=dict(leaves=6, plain=0), engine_thorough=dict(time=200), covers=["publisher changes", "subscriber changes"], bounds="containers with one value, which is changed in place by the publisher or a subscriber")])
check("B06", [dict(name="children", harness="b06_children.cpp", params=dict(ops=3, len=2), params_thorough=dict(ops=4), engine_thorough=T, covers=["created", "taken", "empty", "found", "unknown"], bounds="3 (4) operations on two buses, names up to 2 bytes")])
check("B07", [dict(name="histories", harness="b07_gone.cpp", mt=True, engine=dict(preempt=0), params=dict(), params_thorough=dict(ops=4), engine_thorough=dict(time=500), covers=["published after destruction", "published after detaching", "published on a detached bus", "ran"], bounds="3 (4) operations on a tree of 3 buses"), dict(name="actions", harness="b07_gone.cpp", mt=True, engine=dict(preempt=0), params=dict(ops=2, actions=1, randseq=1), params_thorough=dict(ops=3), engine_thorough=dict(time=200), bounds="2 (3) operations including an asynchronous request; identifiers are fixed distinct values"),
  dict(name="detaching", harness="b07_gone.cpp", mt=True, params=dict(concurrent=1), engine=dict(preempt=2, timeouts=0), params_thorough=dict(msgs=3), engine_thorough=dict(time=150, preempt=3), covers=["all delivered", "some delivered", "none delivered"], bounds="two (three) messages published on any of three buses while another thread detaches any of them, 2 (3) preemptions")])
check("B03", [dict(name="publishers", harness="b03_threads.cpp", mt=True, params=dict(msgs=1), engine=dict(time=150, preempt=2), params_thorough=dict(msgs=2), engine_thorough=dict(time=300, preempt=3), covers=["both"]),
  dict(name="subscribers", harness="b03_threads.cpp", mt=True, params=dict(churn=1, msgs=1), engine=dict(preempt=2), params_thorough=dict(msgs=2), engine_thorough=dict(time=150, preempt=3), covers=["churn"]),
  dict(name="new-publishers", harness="b03_threads.cpp", mt=True, params=dict(churn=2, msgs=1), engine=dict(preempt=2), params_thorough=dict(msgs=2), engine_thorough=dict(time=150, preempt=3), covers=["churn"]),
  dict(name="new-buses", harness="b03_threads.cpp", mt=True, params=dict(churn=3, msgs=1), engine=dict(preempt=2), params_thorough=dict(msgs=2), engine_thorough=dict(time=150, preempt=3), covers=["churn"])])
check("B04", [dict(name="thread", harness="b04_stop.cpp", mt=True, params=dict(msgs=1), engine=dict(preempt=3), params_thorough=dict(msgs=2), engine_thorough=dict(time=200, preempt=4), covers=["stopped"], bounds="stop from a thread at any moment, 1 (2) concurrent messages, 2 (3) preemptions"),
  dict(name="queue", harness="b04_stop.cpp", mt=True, params=dict(msgs=0, early=3), engine=dict(preempt=2), engine_thorough=dict(time=100, preempt=4), covers=["stopped"], bounds="stop from a thread at any moment while three messages are queued, 2 (4) preemptions"),
  dict(name="callback", harness="b04_stop.cpp", mt=True, params=dict({"from": 1, "msgs": 1, "early": 2}), engine=dict(preempt=3), params_thorough=dict(msgs=2), engine_thorough=dict(time=200, preempt=4), covers=["stopped"], bounds="stop from a callback on the root bus"),
  dict(name="child-callback", harness="b04_stop.cpp", mt=True, params=dict({"from": 2, "msgs": 1, "early": 2}), engine=dict(preempt=3), params_thorough=dict(msgs=2), engine_thorough=dict(time=200, preempt=4), covers=["stopped"], bounds="stop from a callback on a child bus"),
  dict(name="again", harness="b04_stop.cpp", mt=True, params=dict(msgs=1, again=1), engine=dict(preempt=1), params_thorough=dict(msgs=1), engine_thorough=dict(time=200, preempt=2), covers=["again"], bounds="stopped, run again and stopped again")])
check("B05", [dict(name="histories", harness="b05_delete.cpp", params=dict(ops=3), params_thorough=dict(ops=5), engine_thorough=dict(time=300), covers=["deleted twice", "subscriber deleted", "publisher deleted", "ran between"], bounds="3 (5) operations on two subscribers and publishers of one bus and topic"),
  dict(name="buses", harness="b05_delete.cpp", params=dict(ops=2, child=1, topics=2), params_thorough=dict(ops=4), engine_thorough=dict(time=250), bounds="2 (4) operations on two buses with two topics"),
  dict(name="running", harness="b05_delete.cpp", mt=True, params=dict(running=1), engine=dict(preempt=2), params_thorough=dict(msgs=2), engine_thorough=dict(time=150, preempt=3), covers=["running"], bounds="a subscriber deleted by another thread during delivery, 2 (3) preemptions"),
  dict(name="running-publisher", harness="b05_delete.cpp", mt=True, params=dict(running=1, publisher=1), engine=dict(preempt=2), params_thorough=dict(msgs=2), engine_thorough=dict(time=100, preempt=3), covers=["running"])])
check("A01", [dict(name="requests", harness="a01_actions.cpp", params=dict(randseq=1, responses=2, leaves=4), params_thorough=dict(requests=2, responses=3, leaves=31), engine_thorough=dict(time=300), covers=["duplicate", "forged"], bounds="2 open requests, 2 (3) responses to any of them, duplicated, forged or in any order; single values as payloads"),
  dict(name="consumers", harness="a01_actions.cpp", params=dict(randseq=1, responses=2, consumers=2, leaves=4, containers=0), params_thorough=dict(responses=3), engine_thorough=dict(time=200), bounds="requests of two consumers"),
  dict(name="bare", harness="a01_actions.cpp", params=dict(randseq=1, bare=1, responses=1, tree=2, leaves=7), params_thorough=dict(tree=3), engine_thorough=dict(time=200), covers=["empty response"], bounds="one response of any shape of 2 (3) nodes, also an empty one, to one of two requests"),
  dict(name="chained", harness="a01_actions.cpp", params=dict(randseq=1, requests=1, responses=2, chain=1, leaves=4), params_thorough=dict(tree=2), engine_thorough=dict(time=200), covers=["chained"], bounds="a response callback that makes another request; payloads of one (two) nodes")])
check("A02", [dict(name="absent", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=0, requests=2), engine=dict(preempt=2), covers=["done"], bounds="no provider, two requests"),
  dict(name="present", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=1, requests=1), params_thorough=dict(requests=2), engine=dict(preempt=2), engine_thorough=dict(time=100, preempt=3), covers=["done"], bounds="a provider that answers at once, timeouts expiring at any moment"),
  dict(name="in-time", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=1, prompt=1, requests=2), engine=dict(preempt=2, timeouts=0), engine_thorough=dict(time=100, preempt=3), covers=["done"], bounds="a provider that answers at once, timeouts expiring when nothing else happens"),
  dict(name="spurious", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=2, prompt=1), engine=dict(preempt=0, timeouts=0, spurious=1), engine_thorough=dict(time=100, preempt=1, spurious=2), covers=["answered", "timed out"], bounds="condition waits that return spuriously once (twice)"),
  dict(name="blank", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=1, prompt=1, blank=1, requests=2), engine=dict(preempt=1, timeouts=0), engine_thorough=dict(time=100, preempt=2), covers=["done"], bounds="a provider that answers at once with an empty datagram"),
  dict(name="late", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=2, prompt=1, requests=2), engine=dict(preempt=1, timeouts=0), engine_thorough=dict(time=200, preempt=2), covers=["answered", "timed out"], bounds="a response before, at and after the timeout, then another request"),
  dict(name="any-time", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=2), params_thorough=dict(requests=2), engine=dict(preempt=0), engine_thorough=dict(time=150, preempt=1), covers=["answered", "timed out"], bounds="a response at any moment relative to the timeout"),
  dict(name="repeated", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=1, twice=1), engine=dict(preempt=1), engine_thorough=dict(time=100, preempt=3), covers=["done"], bounds="a provider that answers twice"),
  dict(name="requesters", harness="a02_blocking.cpp", mt=True, params=dict(randseq=1, mode=1, threads=1), engine=dict(preempt=1), engine_thorough=dict(time=150, preempt=2), covers=["two requesters"], bounds="two requesting threads")])
check("A03", [dict(name="one", harness="a03_malformed.cpp", params=dict(randseq=1, tree=2), params_thorough=dict(tree=3, child=1), engine_thorough=dict(time=300), covers=["unknown id", "no id"], bounds="one arbitrary datagram of 2 (3) nodes, or one with an arbitrary id of 2 (3) nodes, on either topic"),
  dict(name="two", harness="a03_malformed.cpp", params=dict(randseq=1, tree=1, messages=2), params_thorough=dict(tree=2, leaves=6, messages=2), engine_thorough=dict(time=300), bounds="two such messages of one (two) nodes")])
check("P01", [dict(name="libraries", harness="p01_load.cpp", params=dict(libs=2), params_thorough=dict(libs=2, reload=1, extra=2), engine_thorough=dict(time=300), covers=["kept", "unloaded"], bounds="2 files in four directories, every combination of missing entry points, identifiers and kinds"),
  dict(name="names", harness="p01_load.cpp", params=dict(names=1), params_thorough=dict(short=8), engine_thorough=dict(time=300), covers=["plugin file", "other file"], bounds="file names one edit away from a plugin's, and arbitrary ones up to 3 (8) bytes")])
CHECKS["P01"]["configs"] += [dict(name="same-names", harness="p01_load.cpp", params=dict(libs=2, same=1), covers=["same file name"], bounds="two files of the same name in any two of four directories")]
check("P02", [dict(name="histories", harness="p02_instances.cpp", params=dict(ops=2), params_thorough=dict(ops=3), engine_thorough=dict(time=400), covers=["unknown", "second"], bounds="2 (3) instantiations of two plugins with arbitrary one- or two-character names on either of two buses, arbitrary configurations of two nodes"),
  dict(name="taken", harness="p02_instances.cpp", params=dict(ops=3, taken=1), params_thorough=dict(ops=5), engine_thorough=dict(time=150), covers=["done"], bounds="3 (5) instantiations on two buses on one of which some of the names are taken"),
  dict(name="clash", harness="p02_instances.cpp", params=dict(clash=1), covers=["done"], bounds="twelve instances of two plugins whose numbered names collide with each other and with other buses")])
check("P03", [dict(name="workers", harness="p03_unload.cpp", mt=True, params=dict(instances=2), engine=dict(preempt=2), engine_thorough=dict(time=200, preempt=3), covers=["done", "unloaded twice"], bounds="two instances of one plugin, workers polling the stop flag, 2 (3) preemptions"),
  dict(name="libraries", harness="p03_unload.cpp", mt=True, params=dict(instances=2, libs=2), params_thorough=dict(instances=3), engine=dict(preempt=1), engine_thorough=dict(time=200, preempt=1), covers=["done", "unloaded twice"], bounds="2 (3) instances of two plugins"),
  dict(name="short-lived", harness="p03_unload.cpp", mt=True, params=dict(instances=1, mode=1, stopped=1), params_thorough=dict(instances=2), engine=dict(preempt=2), engine_thorough=dict(time=150, preempt=2), covers=["done", "stopped"], bounds="workers that end by themselves, instances stopped beforehand"),
  dict(name="self-stopping", harness="p03_unload.cpp", mt=True, params=dict(instances=1, mode=2, stopped=1), params_thorough=dict(instances=2), engine=dict(preempt=2), engine_thorough=dict(time=100, preempt=2), covers=["done"], bounds="workers that clear their own run flag"),
  dict(name="gaps", harness="p03_unload.cpp", mt=True, params=dict(instances=2, taken=1), params_thorough=dict(instances=3), engine=dict(preempt=0), engine_thorough=dict(time=100, preempt=1), covers=["done", "names taken"], bounds="2 (3) instances whose numbers have gaps because some of the first three names are taken"),
  dict(name="publishing", harness="p03_unload.cpp", mt=True, params=dict(instances=1, publish=1, detach=1), params_thorough=dict(instances=2), engine=dict(preempt=2), engine_thorough=dict(time=200, preempt=2), covers=["done"], bounds="workers that publish while the bus is detached and the plugins are unloaded")])
check("P04", [dict(name="configurations", harness="p04_sysinfo.cpp", mt=True, groups=["core", "sysinfo"], engine=dict(preempt=0, timeouts=0), params=dict(randseq=1), params_thorough=dict(tree=2, requests=2), engine_thorough=dict(time=300), covers=["greeting", "silent"], bounds="every configuration value of 1 (2) nodes, 1 (2) requests, one thread at a time"),
  dict(name="stray", harness="p04_sysinfo.cpp", mt=True, groups=["core", "sysinfo"], engine=dict(preempt=0, timeouts=0), params=dict(randseq=1, requests=0, tree=2), params_thorough=dict(tree=3), engine_thorough=dict(time=200), covers=["stray message"], bounds="a message of 2 (3) nodes from another publisher on the plugin's topic, then a request"),
  dict(name="concurrent", harness="p04_sysinfo.cpp", mt=True, groups=["core", "sysinfo"], engine=dict(preempt=1), engine_thorough=dict(time=300, preempt=2), params=dict(randseq=1, mode=1), covers=["concurrent"], bounds="the bus runs while the plugin is started, asked, stopped and removed; 1 (2) preemptions")])
check("R01", [dict(name="entries", harness="r01_start.cpp", mt=True, params=dict(mode=0, entries=2), params_thorough=dict(typelen=2, kinds=4), engine=dict(preempt=0, timeouts=0), engine_thorough=dict(time=300), covers=["two plugins", "none"], bounds="a list of up to two entries: the first well-formed or malformed in any way within 2 nodes, type names up to 1 (2) bytes, the second well-formed or without configuration (or malformed)"),
  dict(name="documents", harness="r01_start.cpp", mt=True, params=dict(mode=1, nodes=4), params_thorough=dict(nodes=5), engine=dict(preempt=0, timeouts=0), engine_thorough=dict(time=200), covers=["none"], bounds="arbitrary documents, and arbitrary plugin lists, of 4 (5) nodes"),
  dict(name="files", harness="r01_start.cpp", mt=True, params=dict(mode=0, entries=1, files=2, first=2), params_thorough=dict(first=4), engine=dict(preempt=0, timeouts=0), engine_thorough=dict(time=200), covers=["two plugins"], bounds="two files, each missing, malformed or with up to one entry"),
  dict(name="order", harness="r01_start.cpp", mt=True, params=dict(mode=0, entries=2, first=2, kinds=1, paths=1), engine=dict(preempt=1, timeouts=0), engine_thorough=dict(time=200, preempt=2), covers=["two plugins", "another path"], bounds="up to two well-formed entries, plugins in any of the places searched, 1 (2) preemptions")])
check("R02", [dict(name="from-outside", harness="r02_state.cpp", mt=True, params=dict(plugins=1), engine=dict(preempt=2), engine_thorough=dict(time=300, preempt=3), covers=["stopped from outside"], bounds="one plugin; a stop request at any point of startup and running, 2 (3) preemptions"),
  dict(name="repeated", harness="r02_state.cpp", mt=True, params=dict(plugins=1, stops=2, publish=1), params_thorough=dict(stops=3), engine=dict(preempt=1), engine_thorough=dict(time=200, preempt=2), covers=["stopped from outside"], bounds="2 (3) stop requests, also during and after shutdown; a publishing plugin"),
  dict(name="by-plugins", harness="r02_state.cpp", mt=True, params=dict(plugins=1, mode=1), params_thorough=dict(plugins=2), engine=dict(preempt=1), engine_thorough=dict(time=200, preempt=1), covers=["stopped by a plugin"], bounds="stop requests made by a plugin while it is initialised, runs or is shut down"),
  dict(name="observed", harness="r02_state.cpp", mt=True, params=dict(plugins=1, mode=2), engine=dict(preempt=1), engine_thorough=dict(time=200, preempt=2), covers=["seen running", "seen stopped"], bounds="an observer that asks three times"),
  dict(name="bare", harness="r02_state.cpp", mt=True, params=dict(plugins=0), engine=dict(preempt=2), engine_thorough=dict(time=100, preempt=3), covers=["stopped from outside"], bounds="no plugin and no configuration file; a stop request at any moment, 2 (3) preemptions")])
check("R03", [dict(name="handler", harness="r03_signals.cpp", groups=["core", "xnix"], covers=["stop", "other"], bounds="every signal number, two deliveries to either handler"),
  dict(name="program", harness="r03_signals.cpp", defs=["-DLPS_MAIN"], groups=["core", "xnix", "main"], mt=True, engine=dict(preempt=0, timeouts=0), covers=["signal", "late signal"], bounds="the whole program with one plugin; the signal arrives at the n-th write to the console or right after a hook was installed, n < 80, or later"),
  dict(name="worker", harness="r03_signals.cpp", defs=["-DLPS_MAIN"], groups=["core", "xnix", "main"], mt=True, params=dict(worker=1), engine=dict(preempt=2), engine_thorough=dict(time=200, preempt=3), covers=["signal in a worker"], bounds="the signal is handled by a plugin's worker at any moment, 1 (3) preemptions")])
LK = dict(mt=True, groups=["core", "link"])
check("L01", [dict(name="messages", harness="l01_send.cpp", params=dict(messages=1, tree=2), params_thorough=dict(tree=3, topiclen=2, senderlen=2), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=300), covers=["transmitted", "nothing to transmit", "no role"], bounds="one message of 2 (3) nodes from every kind of origin, every combination of roles", **LK),
  dict(name="failing", harness="l01_send.cpp", params=dict(messages=2, tree=1, leaves=4, topiclen=0, faults=1, origins=1), params_thorough=dict(faults=3, messages=3), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=200), covers=["transmitted"], bounds="two (three) messages, one (three) failing transport calls", **LK),
  dict(name="concurrent", harness="l01_send.cpp", params=dict(messages=1, tree=1, leaves=4, topiclen=0, origins=1, mode=2), engine={"preempt": 1, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=200, preempt=2), covers=["transmitted"], bounds="a publisher in another thread, 1 (2) preemptions", **LK)])
check("L02", [dict(name="messages", harness="l02_receive.cpp", params=dict(mode=0, tree=2), params_thorough=dict(tree=3, topiclen=2, senderlen=2), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=300), covers=["republished"], bounds="a message of 2 (3) nodes", **LK),
  dict(name="segments", harness="l02_receive.cpp", params=dict(mode=1, cuts=1), params_thorough=dict(cuts=2), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=200), covers=["segments", "republished"], bounds="a message split at any one (two) points", **LK),
  dict(name="damaged", harness="l02_receive.cpp", params=dict(mode=2), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=200), covers=["dropped", "republished", "interrupted"], bounds="truncation anywhere, empty or missing parts, interrupted reception, other topics", **LK),
  dict(name="both-roles", harness="l02_receive.cpp", params=dict(mode=2, both=1), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=200), covers=["dropped", "republished", "both roles"], bounds="the same on either of the two sockets of a link with both roles, a whole message on the other", **LK),
  dict(name="garbage", harness="l02_receive.cpp", params=dict(mode=3, max=12), params_thorough=dict(max=20), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=200), covers=["dropped"], bounds="any payload of up to 12 (20) bytes", **LK)])
check("L03", [dict(name="failures", harness="l03_resources.cpp", params=dict(faults=3, eintr=1), params_thorough=dict(faults=5), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=400), covers=["failed", "initialised"], bounds="every combination of roles and of 3 (5) failing transport calls", **LK),
  dict(name="configurations", harness="l03_resources.cpp", params=dict(mode=1, tree=2), params_thorough=dict(tree=3), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=150), covers=["initialised"], bounds="arbitrary configurations of 2 (3) nodes", **LK),
  dict(name="endpoints", harness="l03_resources.cpp", params=dict(mode=2), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=150), covers=["initialised"], bounds="any kind of port and host values", **LK),
  dict(name="concurrent", harness="l03_resources.cpp", params=dict(concurrent=1), engine={"preempt": 1, "timeouts": 1, "max-idle": 400}, engine_thorough=dict(time=200, preempt=2), covers=["concurrent"], bounds="the bus runs while the link is started and removed, 1 (2) preemptions", **LK)])
check("L04", [dict(name="messages", harness="l04_joined.cpp", params=dict(messages=1, tree=1, ports=1, names=1), params_thorough=dict(tree=2, names=2), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=300), covers=["arrived"], bounds="a message of either end, of 1 (2) nodes with any sender and topic of one character, links of equal (or different) names", **LK),
  dict(name="wiring", harness="l04_joined.cpp", params=dict(messages=2, leaves=4, flat=1, senderlen=0, topiclen=0, origin=0, names=1), params_thorough=dict(messages=3, rounds=1, names=2), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=300), covers=["arrived", "not joined"], bounds="two (three) messages of either end, default, agreeing or disagreeing ports for either direction", **LK),
  dict(name="actions", harness="l04_joined.cpp", params=dict(randseq=1, actions=1, tree=1, ports=1, names=1, leaves=22), params_thorough=dict(names=2, leaves=31), engine={"preempt": 0, "timeouts": 0, "max-idle": 400}, engine_thorough=dict(time=250), covers=["blocking", "asynchronous"], bounds="an asynchronous or blocking request and an answer of one node", **LK)])
check("D07", [dict(name="operations", harness="d07_memory.cpp", params=dict(mode=0, ops=1, tree=2), params_thorough=dict(ops=2), engine_thorough=dict(time=400), covers=["operations", "rejected operation", "nested"], bounds="one (two) operations on an arbitrary datagram of two nodes, copies, assignments and rejected uses of it"),
  dict(name="messages", harness="d07_memory.cpp", params=dict(mode=1, tree=2), params_thorough=dict(tree=3), engine_thorough=dict(time=200), covers=["serialised"], bounds="messages with arbitrary datagrams of 2 (3) nodes, serialised and decoded"),
  dict(name="truncated", harness="d07_memory.cpp", params=dict(mode=2, tree=1), params_thorough=dict(tree=2, leaves=6), engine_thorough=dict(time=200), covers=["refused"], bounds="serialised messages cut off at any byte"),
  dict(name="buffers", harness="d07_memory.cpp", params=dict(mode=3), covers=["buffer"], bounds="three appends of up to 3 bytes")])
check("S05", [dict(name="documents", harness="s03_json.cpp", params=dict(released=1, nodes=3, slen=1), params_thorough=dict(nodes=4), engine_thorough=dict(time=450), covers=["accepted"], bounds="every document tree of at most 3 (4) values, converted four times"), dict(name="rejected", harness="s03_json.cpp", params=dict(released=1, bad=1), covers=["rejected"], bounds="ten kinds of malformed text")])
check("B08", [dict(name="participants", harness="b08_release.cpp", params=dict(randseq=1, ops=3, actions=0), params_thorough=dict(ops=4), engine_thorough=dict(time=300), covers=["deleted", "several", "child outlives root"], bounds="3 (4) operations creating and deleting publishers and subscribers on one or two buses, publishing and running"),
  dict(name="actions", harness="b08_release.cpp", params=dict(randseq=1, ops=2), params_thorough=dict(ops=3), engine_thorough=dict(time=400), covers=["deleted", "several", "open request", "served", "child outlives root"], bounds="2 (3) operations also creating action providers, consumers with open and served requests and further buses")])
check("B09", [dict(name="schedules", harness="b09_concurrent.cpp", mt=True, params=dict(randseq=1, ops=1, child=1, reply=1), params_thorough=dict(child=2, reply=2), engine=dict(preempt=1, timeouts=0), engine_thorough=dict(time=300, preempt=2), covers=["subscribed", "answered", "replaced", "deleted", "unpublished"], bounds="one of eleven operations while three messages are published and delivered, 1 (2) preemptions"),
  dict(name="exchanged", harness="b09_concurrent.cpp", mt=True, params=dict(randseq=1, ops=1, child=1, reply=1, exchanged=1), params_thorough=dict(child=2, reply=2), engine=dict(preempt=1, timeouts=0), engine_thorough=dict(time=200, preempt=2), covers=["subscribed", "answered", "replaced", "deleted", "unpublished"], bounds="the same with the other thread publishing, 1 (2) preemptions"),
  dict(name="operations", harness="b09_concurrent.cpp", mt=True, params=dict(randseq=1, ops=2), params_thorough=dict(ops=3), engine=dict(preempt=0, timeouts=0), engine_thorough=dict(time=250), covers=["subscribed", "answered", "replaced", "deleted", "unpublished"], bounds="two (three) such operations on the root bus or a child, every order of the threads without preemption")])
check("A04", [dict(name="settled", harness="a04_settled.cpp", mt=True, params=dict(randseq=1, rounds=2), engine=dict(preempt=0, timeouts=0), params_thorough=dict(rounds=4), engine_thorough=dict(time=200), covers=["timed out", "late response", "callback"], bounds="2 (4) rounds of requests that time out, are answered, or answered late"),
  dict(name="running", harness="a04_settled.cpp", mt=True, params=dict(randseq=1, rounds=1, threaded=1), engine=dict(preempt=1), engine_thorough=dict(time=300, preempt=2), params_thorough=dict(rounds=2), covers=["timed out", "answered"], bounds="one (two) rounds of requests on a bus that another thread runs, timeouts expiring at any moment, 1 (2) preemptions")])
check("P05", [dict(name="histories", harness="p05_worker.cpp", mt=True, params=dict(ops=5), engine=dict(preempt=2, timeouts=0), engine_thorough=dict(time=400, preempt=4), covers=["started again after it ended", "started again", "stopped without being started"], bounds="5 operations starting, stopping, waiting for and destroying an instance whose worker polls the flag, ends by itself or clears the flag, 2 (4) preemptions"),
  dict(name="schedules", harness="p05_worker.cpp", mt=True, params=dict(ops=2, slow=1), params_thorough=dict(ops=4), engine=dict(preempt=3), engine_thorough=dict(time=300, preempt=4), bounds="2 (4) operations, 3 (4) preemptions")])
check("P06", [dict(name="helpers", harness="p06_participants.cpp", params=dict(randseq=1, ops=4), params_thorough=dict(ops=5), engine_thorough=dict(time=500), covers=["subscriber deleted", "publisher deleted", "provider deleted", "provided", "consumer"], bounds="4 (5) operations through the instance's helpers")])
check("R04", [dict(name="uses", harness="r04_release.cpp", mt=True, params=dict(randseq=1, entries=1), params_thorough=dict(entries=2), engine=dict(preempt=0, timeouts=0), engine_thorough=dict(time=400), covers=["run", "never run", "unavailable"], bounds="configurations of at most 1 (2) entries and 2 files, an unloadable library, plugins that leave participants and open requests behind, run or never run"),
  dict(name="schedules", harness="r04_release.cpp", mt=True, params=dict(randseq=1, entries=1, simple=1, states=1), engine=dict(preempt=1, timeouts=0), engine_thorough=dict(time=300, preempt=2), covers=["run"], bounds="at most one entry, 1 (2) preemptions")])
check("D08", [dict(name="copies", harness="d08_threads.cpp", mt=True, params=dict(mode=0, tree=2), params_thorough=dict(tree=3), engine=dict(preempt=0, timeouts=0), engine_thorough=dict(time=300), covers=["copies"], bounds="every tree of at most 2 (3) nodes and every operation on the copy of either thread"),
  dict(name="readers", harness="d08_threads.cpp", mt=True, params=dict(mode=1, tree=2), params_thorough=dict(tree=3), engine=dict(preempt=0, timeouts=0), engine_thorough=dict(time=300), covers=["readers"], bounds="every tree of at most 2 (3) nodes and every pair of reading operations"),
  dict(name="objects", harness="d08_threads.cpp", mt=True, params=dict(mode=2, randseq=1), engine=dict(preempt=1, timeouts=0), engine_thorough=dict(preempt=2), covers=["own objects"], bounds="every pair of seven uses of objects of a thread's own, 1 (2) preemptions")])
