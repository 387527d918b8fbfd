#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for ids, titles, statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
RD = ["src/lamppost/messages/RawDatagram.cpp", "include/lamppost/messages/RawDatagram.h"]
DG = ["src/lamppost/messages/Datagram.cpp", "include/lamppost/messages/Datagram.h"]
MS = ["src/lamppost/messages/Message.cpp", "include/lamppost/messages/Message.h"]
BUS = ["src/lamppost/bus/Bus.cpp", "include/lamppost/bus/Bus.h"]
ACT = ["src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/bus/ActionProvider.cpp", "include/lamppost/bus/Bus.h"]
LINK = ["src/plugins/link/Link.cpp", "src/plugins/link/Link.h"]
PM = ["src/lamppost/plugin/PluginManager.cpp", "include/lamppost/plugin/PluginManager.h"]
PT = ["src/lamppost/plugin/PluginTemplate.cpp", "src/lamppost/plugin/PluginInstance.cpp"]
LPf = ["src/lamppost/LampPost.cpp", "include/lamppost/LampPost.h"]
FS = ["src/lamppost/Filesystem.cpp", "include/lamppost/Filesystem.h"]

prop("D01", "A datagram behaves exactly like a list, a dictionary or a single value",
 "For every sequence of operations on a datagram (appending, indexing, key access, removing by index or key, clearing, counting, assigning a value), its kind and its contents are those of the abstract list, dictionary or single value the sequence describes: list items keep insertion order, dictionary keys are unique, and counting reports exactly the number of items. Using a datagram as another kind replaces its old contents completely; nothing of them reappears later.",
 ["inputs", "histories"], "all operation sequences, indices, keys and values within the stated bounds",
 "The tests do one or two operations on one or two fixed items; the claim is about every history and every index/key.",
 RD + DG, [("kind switch and container updates", "src/lamppost/messages/RawDatagram.cpp")],
 ["GetType", "GetCount", "operator[]", "KeyExists", "Get<T>"], [("mType/mDictionary/mList/mValue", "kind and the three containers", "include/lamppost/messages/RawDatagram.h")])
prop("D02", "Misusing a datagram is rejected with the right error and changes nothing",
 "Removing from or counting or clearing a datagram of the wrong kind, removing a key that is absent, indexing or removing past the end of a list, and reading a value as a type it does not hold each raise the corresponding exception (invalid operation, key not found, index out of bounds), carrying the offending key or index. After such a rejected operation the datagram's kind and contents are what they were before.",
 ["inputs", "histories"], "every kind and content of datagram within bounds, every index, every key",
 "Tests sample one index on an empty list and one wrong kind; indices at and past every boundary and the unchanged-state part are never checked.",
 RD + DG + ["src/lamppost/exceptions/IndexOutOfBoundsException.cpp", "src/lamppost/exceptions/KeyNotFoundException.cpp"],
 [("guards before mutation", "src/lamppost/messages/RawDatagram.cpp")], ["exceptions thrown by Remove/Get/GetCount/Clear"])
prop("D03", "Copies of datagrams and messages are equal to the original and independent",
 "Copying or assigning a datagram or a message yields one that compares equal to the original and shares nothing with it: any later change to either, at any depth of nesting, is never visible through the other. This includes assigning a datagram one of its own nested elements.",
 ["inputs", "histories"], "every datagram tree within bounds, every later mutation",
 "No test mutates a copy; sharing bugs show only for particular shapes and mutation sites.",
 RD + DG + MS, [("recursive copy", "src/lamppost/messages/RawDatagram.cpp"), ("copy constructor and assignment", "src/lamppost/messages/Datagram.cpp")], ["Datagram copy/assignment", "Message copy"])
prop("D04", "Datagram and message equality is exactly equality of contents",
 "Two datagrams compare equal if and only if they have the same kind, the same items in the same order or under the same keys, and equal values of the same type (a double that is not a number equals nothing); two messages compare equal if and only if sender, topic and datagram are equal. Equality is symmetric, and inequality is always its negation.",
 ["inputs"], "all pairs of datagram trees within bounds, all scalar values and strings within bounds",
 "Tests compare a handful of fixed pairs; the claim ranges over all pairs, including prefixes, subsets of keys and same-looking values of different type.",
 RD + MS + ["include/lamppost/messages/Data.h"], [("structural comparison", "src/lamppost/messages/RawDatagram.cpp")], ["operator==", "operator!="])
prop("D05", "Path lookup returns the value at the path or the caller's default",
 "Looking up a slash-separated path with a default returns the value stored at that path when every step exists and the final value has the requested type, and the given default in every other case. The lookup never raises an error and never changes the datagram.",
 ["inputs"], "every path string and every nested dictionary within bounds, every requested type",
 "Tests try one existing and one missing path.",
 RD + DG, [("recursive path descent", "include/lamppost/messages/RawDatagram.h")], ["Get<T>(path, default)"])
prop("D06", "Text rendering shows exactly the datagram's contents",
 "Writing a datagram as text produces null for an empty one, strings in double quotes, other scalars bare, lists as bracketed comma-separated items in order and dictionaries as braced key: value pairs in key order, for every nesting. Rendering does not change the datagram.",
 ["inputs"], "every datagram tree within bounds", "No test renders a datagram.",
 RD + DG + MS, [("stream operators", "include/lamppost/messages/RawDatagram.h")], ["operator<<"])
prop("S01", "Every message survives serialisation to bytes and back",
 "Serialising a message and decoding the resulting bytes yields a message with the same sender, topic and datagram, for every tree of lists and dictionaries holding strings, integers, doubles and booleans, nested no deeper than the decoder accepts, whatever bytes the strings contain. Serialising does not change the message.",
 ["inputs"], "all senders, topics, keys, scalar values and tree shapes within bounds",
 "One fixed message is round-tripped by the test; field-specific, boundary-value and nesting-dependent losses are not reachable from it.",
 MS + RD + ["schemas/FBDatagram.fbs", "schemas/FBMessage.fbs"], [("flatbuffers encode/decode", "src/lamppost/messages/RawDatagram.cpp"), ("message framing", "src/lamppost/messages/Message.cpp")], ["Message::SerializeToBytes", "Message::Deserialize"])
prop("S02", "Decoding arbitrary bytes is memory-safe and either succeeds or is rejected",
 "Decoding any byte string as a message either returns a message or raises one of the library's exceptions; it never reads outside the given bytes, dereferences a missing field or otherwise crashes. An empty buffer is rejected the same way.",
 ["inputs"], "every byte buffer up to the stated length, plus arbitrary corruption of well-formed messages",
 "Bytes come from the network in the Link plugin; tests decode only what they just encoded.",
 MS + RD + LINK, [("decoder", "src/lamppost/messages/Message.cpp")], ["Message::Deserialize"])
prop("S03", "JSON documents are converted to datagrams faithfully",
 "Converting a JSON document yields a datagram of the same structure: objects become dictionaries with the same keys, arrays lists of the same length and order, and strings, booleans, doubles and 32-bit integers values of the matching type with the same value; null becomes an empty datagram. Text the JSON parser rejects yields an empty datagram.",
 ["inputs"], "every JSON document tree (as delivered by the JSON parser) within bounds",
 "Tests use a single one-key document.",
 RD, [("JSON tree walk", "src/lamppost/messages/RawDatagram.cpp")], ["Datagram::DeserializeFromJson"])
prop("S04", "A byte buffer holds exactly the bytes appended to it, in order",
 "After any sequence of appends, starting from an empty or a filled buffer, the buffer's size is the total number of bytes given and its content is their concatenation, independent of the source memory's later changes. A copy of a buffer holds the same bytes and neither changes when the other is appended to, assigned or destroyed. Creating one from a null pointer is rejected.",
 ["inputs", "histories"], "every sequence of append sizes and contents within bounds",
 "No test exercises the byte buffer's append or its boundaries.",
 ["src/lamppost/data/RawBytes.cpp", "include/lamppost/data/RawBytes.h"], [("append with reallocation", "src/lamppost/data/RawBytes.cpp")], ["RawBytes::GetContent", "RawBytes::GetSize"])
prop("B01", "Every published message reaches every matching subscriber once, in order",
 "While the bus runs, every message published on any bus of the tree is delivered exactly once to every subscriber of every bus of the tree whose topic matches, and to no other subscriber. Each subscriber receives its messages in the order in which they were published, also when callbacks publish further messages.",
 ["inputs", "histories"], "all bus trees, subscriber/publisher placements, topics and publish sequences within bounds",
 "Tests use one bus, one subscriber and one message.",
 BUS + ["src/lamppost/bus/Subscriber.cpp", "src/lamppost/bus/Publisher.cpp"], [("queue and distribution over the bus tree", "src/lamppost/bus/Bus.cpp")], ["subscriber callbacks"])
prop("B02", "A delivered message carries the publisher's bus, topic and payload",
 "A delivered message names the bus it was published on as sender, carries the publisher's topic, and its datagram equals the one given at the moment of publishing. What the publisher does to its datagram afterwards, and what any subscriber does to the one it received, is not visible to any other subscriber.",
 ["inputs", "histories"], "all bus names, topics, payloads and mutations within bounds",
 "Tests look at the payload of one message and never mutate one.",
 BUS + MS + ["src/lamppost/bus/Publisher.cpp"], [("message construction", "src/lamppost/bus/Bus.cpp")], ["message and datagram callbacks"])
prop("B03", "Concurrent publishing loses, duplicates and reorders nothing",
 "When several threads publish while the bus runs, under every interleaving each published message is delivered exactly once, messages of one thread arrive in that thread's order, and there is neither a deadlock nor a data race. Creating and deleting subscribers and publishers concurrently with delivery is equally safe.",
 ["schedules"], "all interleavings within the stated preemption bound",
 "The test suite pins itself to one CPU and samples one schedule per run.",
 BUS, [("queue mutex and notifier", "src/lamppost/bus/Bus.cpp")], ["subscriber callbacks"])
prop("B04", "Stopping a running bus ends its run loop",
 "Once a running bus is asked to stop, from any thread or from a callback and at any moment, the request takes effect before the next message is delivered: at most the message being delivered at that moment still reaches its subscribers. The run loop returns after at most a bounded number of wait periods, and nothing is delivered once it has returned. It never hangs, under any interleaving.",
 ["schedules"], "all interleavings of the stop request with the run loop and publishers, within the preemption bound",
 "Tests stop an idle bus once.",
 BUS, [("run flag and timed wait", "src/lamppost/bus/Bus.cpp")], ["Bus::Start returning"])
prop("B05", "Deleting a subscriber or publisher takes effect at once and only for it",
 "After deleting a subscriber returns, its callback is never invoked again; after deleting a publisher, publishing through it does nothing. All other subscribers and publishers, including ones with the same topic, keep working, and membership queries reflect exactly the created and not yet deleted ones.",
 ["histories", "schedules"], "all create/delete/publish histories within bounds and interleavings with a running bus",
 "Tests create and delete a single object and never publish afterwards.",
 BUS + ["src/lamppost/bus/Subscriber.cpp", "src/lamppost/bus/Publisher.cpp"], [("managed resource lists and reset", "include/lamppost/bus/Bus.h")], ["ContainsSubscriber", "ContainsPublisher", "callbacks"])
prop("B06", "Child buses are uniquely named and found again by name",
 "Creating a child bus under a free non-empty name succeeds and looking it up by that name returns that same bus; an empty name, a name already taken and looking up an unknown name are each rejected with the matching exception naming the key. A rejected call leaves the set of child buses unchanged.",
 ["inputs", "histories"], "all names and creation/lookup sequences within bounds",
 "Tests try one name.",
 BUS + ["src/lamppost/exceptions/DuplicateKeyException.cpp", "src/lamppost/exceptions/ArgumentNullException.cpp"], [("child bus map", "src/lamppost/bus/Bus.cpp")], ["CreateChildBus", "GetChildBus"])
prop("B07", "Publishing through a detached or destroyed bus is a harmless no-op",
 "After a bus has been detached or destroyed, publishing through any publisher or child bus still held by a client neither crashes nor touches freed memory nor delivers anything. This holds for the whole tree below the bus. Detaching a bus while other threads publish through it or below it is equally safe.",
 ["histories"], "all orders of creating, detaching, destroying and publishing within bounds",
 "No test publishes after a bus is gone.",
 BUS + ["src/lamppost/bus/Publisher.cpp"], [("detach and destructor", "src/lamppost/bus/Bus.cpp")], ["Publisher::Publish", "Bus::Publish"])
prop("U01", "A subscription matches its own topic, or everything if it is the wildcard",
 "A subscription's pattern matches a message topic exactly when the two strings are identical or the pattern is the universal wildcard /**/*. No other pattern matches any other topic, whatever characters either contains.",
 ["inputs"], "all pattern/topic pairs up to the stated lengths",
 "Tests use equal topics only; a false match needs a particular pair of strings.",
 ["src/lamppost/utilities/AntMatcher.cpp", "src/lamppost/bus/Bus.cpp"], [("matcher", "src/lamppost/utilities/AntMatcher.cpp")], ["subscriber callbacks"])
prop("A01", "Each action request gets its own response, at most once",
 "However responses are ordered, duplicated or interleaved with other requests, the callback of a request is invoked at most once, and only with a response sent for that very request, carrying exactly the payload the provider gave. The provider sees each request once, with the payload the consumer sent.",
 ["histories", "inputs"], "all orders, duplications and forgeries of responses to several open requests within bounds",
 "Tests make one request and one response.",
 ACT, [("invocation id map", "src/lamppost/bus/ActionConsumer.cpp")], ["request callbacks", "provider callback"])
prop("A02", "A blocking request returns its response or, after the timeout, nothing",
 "A blocking request returns the provider's response as soon as it arrives, if it arrives in time, and an empty datagram after the timeout otherwise, under every interleaving of requester, bus and timeout. A response that arrives late or never has no effect: no memory error, no data race, no hang.",
 ["schedules"], "all interleavings of requester, provider and timer within the preemption bound",
 "Tests sample one schedule, and never let a response come in after the timeout.",
 ACT, [("condition variable wait", "src/lamppost/bus/ActionConsumer.cpp")], ["ActionConsumer::Request"])
prop("A03", "Malformed action traffic neither stops the bus nor reaches a handler",
 "A message on an action's request or response topic that lacks a textual invocation id is ignored: no exception escapes into the bus, later well-formed requests and responses are still served, and no request callback or provider handler is invoked for it. A response with an unknown id is ignored likewise.",
 ["inputs"], "every shape of datagram within bounds on the action topics",
 "Tests send only well-formed traffic; remote peers can send anything through the Link plugin.",
 ACT, [("envelope unpacking", "include/lamppost/bus/Bus.h")], ["Bus::Start", "callbacks"])
prop("M01", "Sender prefixes are added, recognised and removed consistently",
 "After a name has been prepended to a message's sender the message is recognised as sent by that name, and removing that name restores the original sender. A message is recognised as sent by a name exactly when its sender starts with that name followed by a slash, and removing a name that is not such a prefix changes nothing.",
 ["inputs"], "all sender and name strings within bounds, nested prefixes",
 "No test exercises sender prefixes.",
 MS, [("prefix handling", "src/lamppost/messages/Message.cpp")], ["GetSender", "WasSentBySender"])
prop("L01", "A link forwards every local message once and never echoes its own",
 "With a role enabled, the link transmits every message published on the bus exactly once per enabled role, and the transmitted bytes decode to that message; a message that came in over this link is never transmitted over it again. A link without an enabled role transmits nothing.",
 ["inputs", "configurations"], "all role configurations, messages and senders within bounds; all outcomes of the transport calls",
 "No test loads the Link plugin.",
 LINK + MS, [("wildcard subscriber and sender check", "src/plugins/link/Link.cpp")], ["zmq_msg_send", "zmq_send"])
prop("L02", "A message received over a link is republished intact and marked",
 "Each complete message received from the network is published on the local bus once, with the same topic and payload and with the link's name prefixed to its sender. Network data that is truncated, empty or not a message is dropped without crashing or publishing anything, and reception continues.",
 ["inputs", "fault_sequences"], "all segmentations, contents and transport failures within bounds",
 "No test loads the Link plugin.",
 LINK + MS, [("multipart receive", "src/plugins/link/Link.cpp")], ["zmq_recvmsg", "Bus::Publish"])
prop("L03", "A link releases every transport resource it acquired, exactly once",
 "Whatever transport calls fail, after shutdown every socket and context the link opened has been closed exactly once and none is used after being closed. Starting with invalid endpoints or failing sockets does not crash.",
 ["fault_sequences", "configurations"], "every subset of failing transport calls, all role configurations",
 "No test loads the Link plugin.",
 LINK, [("deinitialisation", "src/plugins/link/Link.cpp")], ["zmq_close", "zmq_ctx_term"])
prop("L04", "Two instances joined by a link share their messages",
 "When one instance's link has the server role and another's the client role, and their ports agree (as the defaults do), every message published at either end is seen once at the other end, with its topic and payload intact and the receiving link's name before its sender; it is seen once where it was published, and never comes back. An action request made at one end is answered, once, by a provider at the other end. With ports that disagree, nothing passes in that direction.",
 ["inputs", "configurations"], "all messages within bounds, both assignments of the roles, equal and different link names, agreeing and disagreeing ports",
 "No test loads the Link plugin, and no test joins two instances.",
 LINK + MS, [("roles and endpoints", "src/plugins/link/Link.cpp"), ("receive loop", "src/plugins/link/Link.cpp")], ["zmq_bind", "zmq_connect", "Bus::Publish"])
prop("P01", "Plugin loading takes exactly the valid plugin libraries and leaks none",
 "Loading considers exactly the files in the search paths whose name has the plugin prefix and the library extension, and keeps exactly those that export the info and instance entry points and a non-empty identifier (of several with the same identifier, exactly one). Every library that was opened is closed exactly once: at once if rejected, otherwise on unloading.",
 ["inputs", "fault_sequences"], "all file names within bounds, all combinations of missing files, libraries and entry points",
 "No test loads a plugin.",
 PM + FS, [("library loading", "src/lamppost/plugin/PluginManager.cpp")], ["dlopen/dlsym/dlclose", "InstantiateTemplate"])
prop("P02", "Every plugin instance gets a unique name and its own bus",
 "Each instantiation of a known plugin yields a new instance named after the plugin followed by the smallest number for which that name is neither another instance's of the plugin nor that of another bus below the same parent, with its own child bus of that name below the given (or default) bus and with the configuration given. Instantiating an unknown plugin yields nothing and changes nothing.",
 ["histories", "inputs"], "all sequences of instantiations of several plugins within bounds",
 "No test instantiates a plugin.",
 PM + PT, [("indexed identifiers", "src/lamppost/plugin/PluginTemplate.cpp")], ["InstantiateTemplate"])
prop("P03", "Plugin instances are stopped, deinitialised and destroyed before unloading",
 "On unloading, every instance's worker has ended before it is deinitialised, each instance is deinitialised exactly once and destroyed before its library is closed, and no code of a plugin that releases its subscriptions when deinitialised runs afterwards. Unloading again is harmless.",
 ["schedules", "histories"], "all interleavings of worker threads and unloading within bounds, any number of instances within bounds",
 "No test starts or unloads a plugin.",
 PT + PM, [("unload order", "src/lamppost/plugin/PluginTemplate.cpp")], ["Run/Deinitialize/destructor order", "dlclose"])
prop("R01", "The configuration decides exactly which plugins are started, and how",
 "Starting with a configuration instantiates, initialises and starts exactly the listed plugins that are available, in the listed order, each with its own configuration; unavailable or malformed entries are skipped without affecting the others. No configuration content makes startup fail.",
 ["configurations", "inputs"], "every configuration datagram within bounds, any subset of available plugins",
 "Tests only construct configuration objects.",
 LPf + RD, [("configuration reading", "src/lamppost/LampPost.cpp")], ["plugin callbacks"])
prop("R02", "The instance reports itself stopped exactly after an orderly shutdown",
 "An instance is not reported stopped before or while it runs and is reported stopped once running has returned. A stop request that arrives at any point after startup has begun, including during startup and after shutdown, is neither lost nor harmful.",
 ["schedules", "histories"], "all points at which the stop request can arrive",
 "No test starts an instance.",
 LPf + BUS + ["src/main.cpp", "src/lamppost/platformspecific/xnix/Xnix.cpp"], [("run state", "src/lamppost/LampPost.cpp")], ["IsStopped", "Start returning"])
prop("R03", "Termination signals request a stop and other signals do not",
 "After the signal hooks are installed, an interrupt or termination signal requests exactly one stop of the running instance, whenever it arrives (even while a log line is being written), and any other signal delivered to the handler does nothing.",
 ["inputs"], "every signal number", "No test covers the signal hooks.",
 ["src/lamppost/platformspecific/xnix/Xnix.cpp", "src/main.cpp"], [("signal handler", "src/lamppost/platformspecific/xnix/Xnix.cpp")], ["sigaction", "stop requests"])
prop("F01", "Path helpers split and join paths consistently",
 "For every path, the file name is what follows the last slash, the base directory what precedes it, and the extension what follows the last dot of the file name, each empty when there is none; joining a directory and a name with no slash in it and splitting the result gives both back.",
 ["inputs"], "all path strings up to the stated length", "No test covers the path helpers.",
 FS, [("string splitting", "src/lamppost/Filesystem.cpp")], ["GetFilename", "GetBaseDirectory", "GetFileExtension", "CombinePaths"])
prop("F02", "A directory listing contains exactly the entries of the requested kind",
 "Listing a directory returns, in directory order and once each, exactly the entries of the requested kind (files, directories or both), other than the directory's own and parent entries; an unreadable directory gives an empty list. The directory handle is always released.",
 ["inputs", "configurations"], "every directory content and entry kind within bounds, every filter, every failing call",
 "No test lists a directory.",
 FS, [("filtering", "src/lamppost/Filesystem.cpp")], ["GetDirectoryContents"])
prop("F03", "Environment queries return the true path or nothing",
 "The queries for the running executable, the working directory and the kind of a path return what the operating system reports, and an empty path or a negative answer when it reports an error; they never return uninitialised memory or overrun their buffers (a path too long for an internal buffer comes back in full or empty, never cut off).",
 ["inputs", "fault_sequences"], "every result of the operating-system calls, every path length up to and past the internal buffer",
 "No test covers these queries; failures of the calls never happen in tests.",
 FS, [("system calls", "src/lamppost/Filesystem.cpp")], ["GetPathOfRunningExecutable", "GetWorkingDirectory", "IsFile", "IsDirectory", "PathExists"])
prop("U02", "Generated identifiers are well-formed version-4 UUID texts",
 "Every generated identifier is a non-empty text of five dash-separated groups of lower-case hexadecimal digits whose third group marks version 4 and whose fourth group marks the standard variant, whatever the random source returns. Two identifiers compare equal exactly when their texts are equal.",
 ["inputs"], "every output of the random source", "Only a handful of random outputs is ever seen by a test run.",
 ["include/lamppost/utilities/Uuid.h", "src/lamppost/utilities/Uuid.cpp"], [("bit masking and formatting", "include/lamppost/utilities/Uuid.h")], ["Uuid::CreateUuid", "operator=="])
prop("U03", "Configurations compare equal exactly when their contents are equal",
 "Two plugin-manager configurations are equal if and only if they name the same bus and the same search paths in the same order, and two instance configurations if and only if their plugin-manager configurations and their lists of configuration files are equal; equality is symmetric, inequality its negation, and comparing never reads outside either configuration.",
 ["inputs"], "all pairs of configurations within bounds", "Tests construct configurations but hardly compare them.",
 ["include/lamppost/plugin/PluginManagerConfiguration.h", "include/lamppost/LampPostConfiguration.h"], [("comparison", "include/lamppost/plugin/PluginManagerConfiguration.h")], ["operator==", "operator!="])
prop("U04", "Log lines are complete, prefixed and never interleaved",
 "Every logged message appears exactly once as one line: the bracketed prefix, two spaces per indentation level and the message. Lines logged by different threads are never mixed, under any interleaving.",
 ["schedules", "inputs"], "all messages, prefixes and indentation levels within bounds; all interleavings of two loggers",
 "No test looks at log output.",
 ["src/lamppost/log/Log.cpp", "include/lamppost/log/Log.h"], [("synchronised write", "src/lamppost/log/Log.cpp")], ["standard output"])
prop("P04", "The system-information plugin serves its action and publishes as configured",
 "The system-information plugin answers every request on its action exactly once with its response text under the request's own id, and publishes its greeting if and only if its configuration enables it. Messages of any other content on its topics disturb neither it nor the bus. After deinitialisation it no longer publishes, receives or answers.",
 ["configurations", "histories"], "every configuration value and request sequence within bounds",
 "No test loads the plugin.",
 ["src/plugins/sysinfo/SysInfo.cpp", "src/plugins/sysinfo/SysInfo.h"], [("initialisation from configuration", "src/plugins/sysinfo/SysInfo.cpp")], ["messages on the plugin's topics"])
prop("D07", "Datagrams, messages and byte buffers give back all the memory they take",
 "Whatever sequence of operations was done with datagrams, messages and byte buffers, including copies, assignments, serialising, decoding, operations that were rejected and bytes that were refused, once the objects have gone every piece of memory they took has been released.",
 ["inputs", "histories"], "every operation, datagram tree, message, truncation and sequence of appends within bounds",
 "The tests measure no memory; a leak depends on the operation, on the kinds before and after it and on which step is rejected.",
 RD + DG + MS + ["src/lamppost/data/RawBytes.cpp"], [("ownership of values, items and buffers", "src/lamppost/messages/RawDatagram.cpp"), ("buffer reallocation", "src/lamppost/data/RawBytes.cpp")], ["allocations still live after the objects' lifetimes"])
prop("S05", "Converting JSON releases everything the JSON parser handed out",
 "After converting any JSON text, whether it was accepted or rejected, everything the JSON parser was asked to create has been released and the conversion has left nothing behind but the returned datagram, however often it is repeated.",
 ["inputs"], "every JSON document tree within bounds, every kind of rejected text, repeated conversions",
 "The tests convert one document once and measure no memory.",
 RD, [("JSON parser and document ownership", "src/lamppost/messages/RawDatagram.cpp")], ["Datagram::DeserializeFromJson", "allocations and references still live afterwards"])
prop("B08", "A destroyed bus releases everything that was created on it",
 "Once a bus has been destroyed, every subscriber, publisher, action provider, action consumer and child bus created on it that no client holds any more is released, together with what their callbacks captured. What a client still holds stays usable and is released when the client lets go of it.",
 ["histories"], "all sequences of creating, holding, deleting, publishing and running within bounds, all orders of destruction",
 "The tests measure no memory and never destroy a bus with participants on it.",
 BUS + ["src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/bus/ActionProvider.cpp", "src/lamppost/bus/Subscriber.cpp"], [("destructor and participant lists", "src/lamppost/bus/Bus.cpp")], ["expired handles", "captured objects", "live allocations"])
prop("B09", "Participants may be created, changed and deleted while the bus runs",
 "Any thread may create subscribers, publishers, action providers, action consumers and child buses, set their callbacks and delete them while another thread runs the root bus and messages are being published and delivered: no interleaving leads to a data race, a crash or a deadlock. Whatever is published after a subscriber's callback was set reaches that callback; a callback that is replaced loses and repeats no message; nothing is delivered to a subscriber, or through a publisher, once its deletion has returned; all other subscribers receive every message exactly once throughout.",
 ["schedules", "histories"], "all interleavings within the preemption bound of a running bus, a publishing thread and a thread changing participants",
 "Tests set everything up before the bus runs.",
 BUS, [("receiving and setting callbacks", "src/lamppost/bus/Subscriber.cpp"), ("creating and deleting managed resources", "include/lamppost/bus/Bus.h")], ["Bus::CreateSubscriber", "Bus::DeletePublisher", "Subscriber::SetDatagramCallback"])
prop("A04", "A request that was answered or has timed out leaves nothing behind",
 "Once a request has been answered, or a blocking request has timed out, the consumer keeps nothing of it: its callback and what that captured are released, and any number of such requests occupies no more memory than none. A response that comes after the timeout changes nothing about that.",
 ["histories", "schedules"], "all sequences of answered, unanswered and late requests within bounds, and all interleavings with a running bus within the preemption bound",
 "The tests make one request; growth shows only over many requests that are not answered.",
 ACT, [("open request bookkeeping", "src/lamppost/bus/ActionConsumer.cpp")], ["captured objects", "live allocations"])
prop("P05", "A started plugin instance's worker runs until it is asked to stop",
 "Starting a plugin instance runs its worker exactly once, concurrently with the caller; from the start on the worker finds itself asked to run until a stop is requested. Stopping returns only once the worker has ended, and does no harm if the instance was never started or the worker has ended by itself. The instance can be started again after it was stopped or its worker ended, and never has two workers.",
 ["schedules", "histories"], "all sequences of starting, stopping, waiting and destroying within bounds, workers that poll, end by themselves or clear their own flag, all interleavings within the preemption bound",
 "The tests start and stop one instance once; whether the worker sees its flag depends on when its thread first runs.",
 ["src/lamppost/plugin/PluginInstance.cpp", "include/lamppost/plugin/PluginInstance.h"], [("worker thread and run flag", "src/lamppost/plugin/PluginInstance.cpp")], ["PluginInstance::Start", "PluginInstance::Stop", "mShouldRun as seen by Run()"])
prop("P06", "What a plugin creates through its helpers belongs to its own bus",
 "Publishers, subscribers, action providers and action consumers that a plugin instance obtains through its helpers are participants of the bus it was configured with: they carry that bus' name, publish to it and receive from it. Deleting one through the helpers takes effect on that bus and affects no other participant of it or of another bus.",
 ["histories"], "all sequences of helper operations within bounds, on an instance whose bus has a sibling below a common root",
 "The tests use one helper on one instance and look at no bus name.",
 ["src/lamppost/plugin/PluginInstance.cpp", "include/lamppost/plugin/PluginInstance.h", "src/lamppost/bus/Bus.cpp"], [("helpers", "include/lamppost/plugin/PluginInstance.h"), ("deletion", "src/lamppost/plugin/PluginInstance.cpp")], ["PluginInstance::GetPublisher and its siblings", "messages received"])
prop("R04", "A destroyed instance has released everything it took",
 "Once an instance has been destroyed, whether it was run or not, every plugin instance, library, directory and all memory it took has been released, including participants, open requests and undelivered messages its plugins left behind. Instances created later in the same program behave like the first and the program does not grow.",
 ["configurations", "histories", "schedules"], "all plugin lists within bounds with loadable, unloadable and missing plugins, run or never run, all interleavings within the preemption bound",
 "The tests create one instance and measure nothing.",
 ["src/lamppost/LampPost.cpp", "include/lamppost/LampPost.h", "src/lamppost/plugin/PluginManager.cpp", "src/lamppost/plugin/PluginTemplate.cpp", "src/lamppost/bus/Bus.cpp"], [("construction, Start, Teardown and destructor", "src/lamppost/LampPost.cpp"), ("library handles", "src/lamppost/plugin/PluginManager.cpp")], ["live allocations", "open libraries and directories", "captured objects"])
prop("D08", "Data held by different threads does not interfere",
 "Copies of datagrams and messages, and any other data objects of a thread's own (byte buffers, identifiers, topic matching, text), can be used by different threads at the same time without synchronisation: each behaves as if it were used alone. One datagram can be read, copied, compared, serialised and printed by several threads at once.",
 ["schedules", "inputs"], "every datagram tree and pair of operations within bounds, with data races decided for all interleavings of the pair",
 "No test uses data from two threads; a race shows only under particular timing.",
 RD + DG + MS + ["src/lamppost/data/RawBytes.cpp", "include/lamppost/utilities/Uuid.h", "src/lamppost/utilities/AntMatcher.cpp"], [("copying and reading", "src/lamppost/messages/RawDatagram.cpp"), ("copy construction and assignment", "include/lamppost/messages/Datagram.h")], ["contents seen by each thread", "unsynchronised accesses"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
