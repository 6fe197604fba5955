NET = ["streamtasks/net/__init__.py", "streamtasks/net/helpers.py", "streamtasks/net/messages.py", "streamtasks/net/serialization.py"]
CLI = ["streamtasks/client/__init__.py", "streamtasks/client/topic.py", "streamtasks/client/receiver.py"]
CONN = ["streamtasks/connection.py"]
SFC = ["schedules", "inputs", "fault_sequences", "configurations"]


def define(prop):
  prop("N01", "Stable subscriptions get every message once, in order, and nothing else",
       "In a network without redundant paths, while a consumer stays subscribed to a topic and the route to the topic's only provider stays up, every message that provider publishes is delivered to the consumer exactly once, unmodified and in publication order. "
       "This holds whatever other clients, topics and links come, go or fail meanwhile. "
       "A consumer never receives a message twice, a message of a topic it is not subscribed to, or a message somebody did not publish.",
       SFC,
       "every loop-free arrangement of switches and link kinds, every order of subscribe, unsubscribe, provider move, link cut and restore, client crash and publish, every task interleaving and link latency",
       "the tests publish a few messages over one or two in-process queue links in one fixed order; no latency, no link failure, no concurrent membership change",
       NET + CLI,
       [("topic routing and request propagation", "Switch in net/__init__.py"), ("subscription reference counting", "Client in client/__init__.py")],
       "Seeded random search; every reported failure replays exactly. Says nothing about networks with redundant paths, or about the 3 s after each change of route or membership.")

  prop("N02", "Topic demand reaches the nearest provider and disappears with its cause",
       "After the network has settled, a provider of a topic is told that the topic is requested exactly while some consumer that can reach it uses it, and each consumer receives, once, what its cheapest reachable provider publishes. "
       "When that provider unregisters, crashes or is cut off, the next cheapest reachable provider takes over without any action by the consumer. "
       "A provider with no remaining consumer is told that it is no longer requested.",
       ["histories", "schedules", "fault_sequences", "configurations"],
       "every loop-free arrangement of switches, link kinds and costs, up to three providers per topic, every history of register, unregister, subscribe, unsubscribe, cut, restore and crash between two settle points",
       "the tests cover one provider change on two switches in a fixed order; the failing histories need several providers, unequal costs and a removal at a particular place",
       NET + CLI,
       [("choice of provider link by cost, request propagation", "Switch in net/__init__.py"), ("is_requested tracking", "OutTopic in client/topic.py")],
       "Seeded random search; state is compared at settle points only, transients are not judged. Ties in cost are accepted either way.")

  prop("N03", "Addressed messages reach the current owner of the address, once, in order",
       "In a network without redundant paths, while the owner of an address and the route to it are stable, every message a client sends to that address and port is delivered exactly once, unmodified and in sending order to a receiver of the owner listening on that port. "
       "No client that does not own the address, or no longer owns it, receives it. "
       "Sending to an address that is unknown or no longer reachable never disconnects the sender.",
       SFC,
       "every loop-free arrangement, every history of taking, giving up and moving addresses, cuts, restores, client crashes, and every interleaving with sends",
       "the tests send one message between two clients of one switch",
       NET + CLI,
       [("address routing", "Switch in net/__init__.py"), ("address registration and request", "Client.set_address / send_to in client/__init__.py"), ("receiver filter", "AddressReceiver in client/receiver.py")],
       "Seeded random search; an owner counts as stable 3 s after the last change.")

  prop("N04", "A failing link takes down itself and nothing else",
       "Whatever a peer does on one link (fails while receiving, fails while being sent to, closes, sends garbage), traffic between other links of the same switches continues without loss, duplication or disconnection. "
       "The failed link is closed, everything reachable only through it is withdrawn from the whole network, and what it provided or requested is taken over by, or no longer requested from, the others.",
       ["fault_sequences", "schedules", "configurations"],
       "every moment and manner of failure of one or several links, alone or together, relative to the traffic and to the registrations that go through them",
       "tests close links only when idle; failure during a send, or two failures at once, needs a particular interleaving",
       NET + CONN,
       [("link removal and error isolation", "Switch._run_link_input, remove_link in net/__init__.py"), ("LinkManager", "net/helpers.py")],
       "Seeded random search. A peer that neither reads nor fails is out of scope: back-pressure makes others wait for it.")

  prop("N05", "Remapped topic ids never leak, collide or mix up topics",
       "For a client behind a link that remaps topic ids, publishing, subscribing, requested state and pause state work exactly as without the mapping: a message on a topic reaches exactly the subscribers of the topic it is mapped to. "
       "This holds for any one-to-one mapping, including mappings whose external ids equal internal ids of other topics.",
       ["inputs", "histories", "schedules", "configurations"],
       "every injective mapping of topic ids (fresh, swapped, colliding with ids used unmapped elsewhere) and every history of subscribe, unsubscribe, publish and pause behind it",
       "the tests map one or two fresh ids and check a handful of messages",
       ["streamtasks/net/__init__.py", "streamtasks/net/helpers.py", "streamtasks/client/__init__.py"],
       [("TopicRemappingLink", "net/__init__.py"), ("topic spaces", "client/__init__.py, services/discovery.py")],
       "Seeded random search over mappings and histories.")

  prop("N06", "Every consumer ends up with the producer's pause state and event order",
       "A consumer of a topic with one provider sees, once the network has settled, exactly the provider's current pause state, no matter when it subscribed, resubscribed or lost and regained the route. "
       "While its subscription and route are stable it sees pauses, resumptions and data in the order in which the provider issued them. "
       "Pausing one topic never changes the state of another.",
       ["histories", "schedules", "fault_sequences"],
       "every history of pause, resume, publish, subscribe (one or several topics at once), unsubscribe, cut and restore, and every interleaving of a late subscription with a state change",
       "tests check one pause before or after one subscription; losing an update needs the subscription to overlap a pause",
       NET + CLI,
       [("pause propagation and replay to late subscribers", "Client and Switch"), ("is_paused", "InTopic, OutTopic in client/topic.py")],
       "Seeded random search; limited to topics with one provider. A second subscription of the same client to the same topic is not replayed by design of the per-client counting, and not judged.")

  prop("C01", "A connection carries whole messages, in order, despite garbage and cancel",
       "On a stream connection every message whose send succeeded arrives at a peer that keeps reading exactly once, byte for byte and in sending order, however the stream is cut into segments, with several concurrent senders, and when sends or receives are cancelled midway. "
       "Bytes between frames that are not a message are skipped without losing the messages after them. "
       "When the connection goes down, both sides report it as closed: a receive never hangs and a send does not keep succeeding.",
       ["inputs", "schedules", "fault_sequences"],
       "every segmentation, latency and back-pressure of the byte stream, every message size, every point of cancellation, every garbage between frames, close or reset at any byte",
       "tests use a loopback socket that practically always delivers whole frames, and never cancel midway",
       CONN,
       [("framing and resynchronisation", "RawStreamConnection / RawConnection in connection.py"), ("send lock and shielding", "connection.py")],
       "Seeded random search. Garbage that contains a complete plausible frame header is not generated.")

  prop("C02", "Only peers with the right secret and version get in, and all of those do",
       "A server with a secret admits a connection only if it presents that secret and the same protocol version; this holds for the first and for every later connection, over TCP, unix sockets and websockets, whatever other clients do. "
       "A peer that is rejected, sends garbage or stalls in the handshake gets no message through, learns nothing of the secret, and does not keep others out. "
       "Every well-behaved client with the right secret is connected and can exchange messages, and the reported number of connections equals those open.",
       ["inputs", "schedules", "fault_sequences", "histories"],
       "every mix and timing of right, wrong and missing secrets, versions, garbage, stalls and hang-ups in the handshake, on every transport",
       "tests open one connection with the right and one with a wrong secret, each on a fresh server",
       CONN,
       [("handshake", "connection.py do_handshake and servers"), ("secret check", "ServerBase")],
       "Seeded random search. Timing attacks on the comparison are out of scope.")

  prop("C03", "A persistent connection comes back after every failure, without hammering",
       "An automatically reconnecting connection is re-established after any failure (reset, refused, server stopped, rejected handshake, garbage answer) within a bounded number of its delay periods once a healthy server is there. "
       "While no server is there, it reports that it is not connected, and two connection attempts are never closer together than the delay. "
       "When it reports being connected, messages pass in both directions.",
       ["fault_sequences", "schedules"],
       "every sequence and timing of failures and server restarts, on every transport",
       "the tests restart a server once; rejected or garbled handshakes and failures in the middle of connecting are not exercised",
       CONN,
       [("AutoReconnector", "connection.py")],
       "Seeded random search with bounded-time liveness in simulated time.")

  prop("C04", "A node that stops withdraws everything it brought and disturbs no other",
       "When a node is stopped or interrupted, the tasks it ran end, its task hosts and web paths disappear from every list, and the deployments that used them see that their tasks are gone. "
       "Its servers and connections close, it ends within bounded time and nothing of it keeps running. "
       "The tasks, connections and web paths of the other nodes go on undisturbed, and a node that joins again is offered and used like the first time.",
       ["histories", "schedules", "fault_sequences", "configurations"],
       "every arrangement of a core and one to three further nodes over TCP, with any of the task hosts, tasks that end slowly, deployments that span nodes, connections that break, nodes that stop (asked or interrupted) and return at any time",
       "tests start one system with all its parts and stop it; nobody looks at what is left on the other side",
       ["streamtasks/system/builder.py", "streamtasks/utils.py", "streamtasks/worker.py", "streamtasks/system/task.py", "streamtasks/system/task_web.py", "streamtasks/connection.py"],
       [("shutdown order", "SystemBuilder and AsyncTaskManager"), ("withdrawal", "TaskHost, TaskWebPathHandler, Worker"), ("connections", "servers and AutoReconnector")],
       "Seeded random search. A node that loses its connection at the moment it stops cannot withdraw anything; such cases are not judged.")

  prop("L01", "Every request gets the answer to that request, once",
       "A request to a server that is running and reachable completes with exactly the response, or the error, that the handler gave for that request: answers are never swapped between concurrent requests or clients, and the handler runs exactly once. "
       "A handler that fails, rejects its input or does not answer still produces an answer, of the matching error class, and does not stop the server. "
       "Requests that are given up midway never disturb others.",
       ["schedules", "inputs", "fault_sequences", "configurations"],
       "every interleaving of concurrent requests from several clients to several servers on a loop-free network, cancelled requests, server restarts and link cuts",
       "the tests issue requests one after another on one switch",
       ["streamtasks/client/fetch.py", "streamtasks/client/__init__.py", "streamtasks/client/receiver.py"],
       [("request ports and matching", "Client.fetch"), ("FetchServer", "client/fetch.py")],
       "Seeded random search. A request to a server that is not there never returns (no timeout in the API); callers time out themselves, so that is not judged.")

  prop("L02", "Signals and broadcasts reach exactly those they are meant for",
       "Every receiver that has joined the namespaces of a broadcasting server gets each later broadcast of these namespaces exactly once, unmodified and in order, and no other one. "
       "Every well-formed signal sent to a running signal server runs the handler of that signal, and only that one, exactly once; malformed signals, unknown ones and failing handlers leave the server working. "
       "Joining, leaving or giving up midway never disturbs other receivers.",
       SFC,
       "every loop-free network, every mix of namespaces joined, every order and overlap of join, leave, broadcast and signal, and every point at which a join is given up",
       "tests join one receiver and send two broadcasts; overlap of joining and leaving with broadcasts is not sampled",
       ["streamtasks/client/broadcast.py", "streamtasks/client/signal.py", "streamtasks/client/receiver.py", "streamtasks/services/discovery.py"],
       [("broadcast namespaces as topics", "BroadcastingServer, BroadcastReceiver"), ("signal handlers", "SignalServer")],
       "Seeded random search; a receiver counts as joined 0.4 s after its join returned.")

  prop("L03", "Receivers of one client come and go without disturbing each other",
       "However many topic receivers, in-topics, signal waits and requests of one client start, overlap, stop and are cancelled, each gets every message that is meant for it while it is running, once and in order, and none after it stopped. "
       "Once all have stopped, the client uses no topic any more and the network no longer requests them from their producers. "
       "Starting and stopping always return, and whoever is cancelled meanwhile ends.",
       ["schedules", "histories", "fault_sequences"],
       "every overlap of starts, stops and cancellations of receivers of every kind with each other and with arriving messages",
       "tests start one receiver, use it and stop it; the failures need a start to overlap a stop or a cancellation at a particular await",
       CLI + ["streamtasks/client/fetch.py", "streamtasks/client/signal.py"],
       [("receiver start and stop", "Receiver.start_recv/stop_recv in client/receiver.py"), ("receive loop life cycle", "Client.enable_receiver/disable_receiver"), ("per-client topic reference counts", "IdTracker in client/__init__.py")],
       "Seeded random search. Cancelling is exercised over the in-process client link only: a cancelled write to a congested network link may or may not have been sent, either is accepted by not judging it.")

  prop("L04", "Synchronised inputs are handed over in timestamp order, without deadlock",
       "Inputs read through a synchroniser hand over every message that is not older than its predecessor on the topic exactly once and in order, and never hand over a message while another active input of the group may still have, or is still processing, one with a smaller timestamp (for equal timestamps: with a more important priority). "
       "Inputs that are paused, or that have already gone past that timestamp, hold nobody up. "
       "Every message that nothing has to wait for any more is handed over, whatever the readers' speeds.",
       ["schedules", "inputs", "histories"],
       "every number of inputs, priorities, reader speeds, timestamps (rising, equal, falling, missing), pauses and arrival orders",
       "tests drive two or three topics by hand with one reader each in a fixed order",
       ["streamtasks/client/topic.py"],
       [("hand-over barrier", "SequentialInTopicSynchronizer"), ("priorities", "PrioritizedSequentialInTopicSynchronizer"), ("pause handling", "SynchronizedInTopic")],
       "Seeded random search. A resumption without a preceding pause is not generated.")

  prop("D01", "Handed-out addresses, topic ids and topic spaces are unique and complete",
       "No address and no topic id that the discovery service hands out is ever handed out again while it runs, whoever asks, however many ask at once, and whether or not the asker gives up; every request gets exactly the number it asked for. "
       "A topic space maps the given ids one to one onto fresh ids, reads and translations of it agree with that mapping for every client until it is deleted, and are refused afterwards. "
       "Malformed requests are answered with an error, hand out nothing and leave the service working.",
       ["histories", "schedules", "inputs", "fault_sequences"],
       "every number of clients and every interleaving of their requests, requests given up midway, links cut and restored, clients without an address yet, malformed requests",
       "tests ask once or twice from one client",
       ["streamtasks/services/discovery.py", "streamtasks/client/discovery.py"],
       [("address and topic id counters", "DiscoveryWorker"), ("topic spaces", "DiscoveryWorker, TopicSpaceRequest"), ("address request without address", "client/discovery.py")],
       "Seeded random search. Uniqueness is per run of the discovery service; it keeps no state across restarts.")

  prop("D02", "Address names resolve to their newest registration, and nobody waits in vain",
       "Resolving a registered address name yields the address of its newest registration, and withdrawing one registration never removes that of another client. "
       "A name that was withdrawn is reported as unknown. "
       "Whoever waits for a name is told as soon as it is registered, at whatever moment relative to the registration the wait began.",
       ["histories", "schedules"],
       "every order and overlap of register, withdraw, re-register (also of the same name by several clients), look-up and wait, and waits given up midway",
       "tests register one name before or after one wait",
       ["streamtasks/client/discovery.py", "streamtasks/services/discovery.py", "streamtasks/client/__init__.py"],
       [("name registry", "DiscoveryWorker"), ("waiting", "wait_for_address_name"), ("registration context", "address_name_context, register_address_name")],
       "Seeded random search. A long-lived client keeps using an address it resolved once (no invalidation exists); look-ups are judged on fresh clients.")

  prop("T01", "A started task runs once, with its configuration, and its true end is reported",
       "A task that is started runs exactly once, on the host it was scheduled for, with the configuration it was given, and never after a failed start; cancelling a task stops that task and no other. "
       "Who started it, who asks the task manager and everyone who listens learns the same true outcome: running, ended, failed with its error, or stopped. "
       "When it is over, neither the task manager nor the host remembers it, and nothing of it is left on the network.",
       ["schedules", "histories", "configurations"],
       "every order and overlap of schedule, start, cancel, listen and query by several clients, tasks that fail at creation, in their set-up or while running, that end at once, that take their time to stop or refuse to",
       "tests start and cancel one well-behaved task",
       ["streamtasks/system/task.py", "streamtasks/client/fetch.py", "streamtasks/client/broadcast.py"],
       [("start and cancel", "TaskManager.run_fetch_api, TaskHost.run_api"), ("reports", "TaskHost.run_task, TaskManager.run_signal_api"), ("listeners", "TaskBroadcastReceiver")],
       "Seeded random search with scripted tasks. Threads of SyncTask are not part of it.")

  prop("T02", "The task manager lists the hosts that are there; tasks end with their host",
       "Whatever order task manager and task hosts start in, the task manager lists every running task host with its current address and no host that has shut down, and whoever watches is told of each arrival and departure. "
       "When a host shuts down or comes back after a crash, its earlier tasks are over: they no longer run, are reported as over to their listeners and are forgotten. "
       "A host that crashed without notice delays requests about other hosts only for a bounded time.",
       ["schedules", "histories", "fault_sequences", "crash_points"],
       "every order of host start, orderly shutdown, crash and return under the same id, with tasks started, cancelled and watched on them at any moment",
       "tests register one host and shut it down once",
       ["streamtasks/system/task.py", "streamtasks/client/discovery.py", "streamtasks/net/__init__.py", "streamtasks/worker.py"],
       [("host registration", "TaskHost.register, TaskHost.unregister, TaskManager"), ("shutdown", "TaskHost.run, Worker.shutdown"), ("host news", "TaskHostRegisteredReceiver, TaskHostUnregisteredReceiver")],
       "Seeded random search. A crashed host stays listed until it comes back (there is no heartbeat), so nothing is claimed about it until then; nor about a host that leaves while its registration is still unanswered.")

  prop("T03", "A deployment runs each of its tasks once per start; stopping it leaves nothing",
       "Over the web interface, deployments and their tasks can be created, edited and deleted only while they are offline, and whatever several users ask for at the same time, every answer is explained by some order of their requests. "
       "Starting a scheduled deployment runs each of its stored tasks exactly once, on its host, with its stored configuration and in a topic space of its own, and the task states shown (by request and by websocket) become the true ones. "
       "Stopping it ends all its tasks, frees its topic space and takes it offline.",
       ["histories", "schedules", "inputs"],
       "every overlap of create, edit, delete, schedule, start, stop and query by several users over several deployments, with tasks that end, fail or refuse to stop at any moment and hosts that shut down and come back",
       "tests call each endpoint once, one after another",
       ["streamtasks/system/task_web.py", "streamtasks/system/task.py", "streamtasks/pydanticdb.py"],
       [("deployment life cycle", "TaskWebBackend.run_asgi_server"), ("stored tasks and deployments", "TaskWebBackendStore"), ("status updates", "TaskWebBackend.run_deployment_task_listener, websocket routes")],
       "Seeded random search; request histories are checked for linearizability against a small model. Deployments that run while the web backend itself restarts are not part of it (their state is only in memory).")

  prop("T06", "Data flows along a deployment's wires and through named topics, only there",
       "While a deployment runs, what one of its tasks publishes on an output reaches every task of the same deployment whose input is wired to it, once and in order, and no task of another deployment or of an earlier run, even though deployments use the same local topic ids. "
       "A named output makes its input available, with its pauses, to every named input of the same name in any running deployment, and a name keeps its topic when it is edited. "
       "A user who watches a topic of a running deployment gets the same messages as a wired task; stopping a deployment ends its traffic.",
       ["histories", "schedules", "fault_sequences", "configurations"],
       "every set of deployments with overlapping topic ids, relays and chains of named topics over several hosts, every order of start, stop, restart, pause, watching, editing of names, and links that break and heal",
       "tests wire one task to itself on one host",
       ["streamtasks/system/tasks/namedinput.py", "streamtasks/system/tasks/namedoutput.py", "streamtasks/system/named_topic_manager.py", "streamtasks/system/task_web.py", "streamtasks/services/discovery.py"],
       [("topic spaces", "TopicSpace in services/discovery.py, Client.set_topic_space"), ("named topics", "namedinput.py, namedoutput.py, NamedTopicManager"), ("watching", "topic websocket in task_web.py")],
       "Seeded random search. Messages sent within 2 s of a start, stop or change of the network may be missed; local topic ids are those an editor gives (above the ids of the system).")

  prop("T07", "Web traffic over the network arrives whole, once and at the right application",
       "An HTTP request or websocket that goes to a web application over the network reaches that application exactly once with its method, path, query, headers and body unchanged, and the answer reaches the caller unchanged; websocket messages arrive in order, none lost while both sides stay. "
       "Requests for a task host or a registered path reach the instance that registered last, and are answered with not found when there is none. "
       "When either side fails, closes or disconnects, the exchange ends on the other side as well, with at most one response.",
       ["inputs", "schedules", "fault_sequences"],
       "every overlap of requests and websockets in any number of pieces, applications that answer early, in pieces, never, fail before or in the middle of the answer, browsers that leave at any moment, hosts and path handlers that restart",
       "tests send one request and one websocket echo to one application",
       ["streamtasks/asgi.py", "streamtasks/asgiserver.py", "streamtasks/system/task_web.py"],
       [("proxy and runner", "ASGIProxyApp, ASGIAppRunner"), ("contexts and error answers", "asgiserver.py, asgi_default_http_error_handler"), ("routing to hosts and paths", "TaskWebBackend, TaskWebPathHandler")],
       "Seeded random search. Nothing is claimed about requests to a host or path within 2 s of its coming or going.")

  prop("T08", "Every task on offer starts, is connected as configured, survives any message",
       "Whatever a task host publishes as its default configuration, editor fields, tracks, inputs and outputs: a task started with values these allow runs, and while it runs it is subscribed to the inputs it was given and provides its outputs. "
       "No message of any content, from any source, paused or delayed, ends it or silences its host. "
       "Once stopped it is connected to none of them, and it can be started again with another configuration.",
       ["inputs", "schedules", "fault_sequences"],
       "every configuration the editor allows of every task in the catalogue, joined to each other and to sources over any network, and every message payload: of the wrong kind, malformed, with extreme, infinite or missing numbers",
       "tests start some tasks with one hand-written configuration and send them well-formed messages",
       ["streamtasks/system/tasks", "streamtasks/system/configurators.py", "streamtasks/system/task.py"],
       [("catalogue", "get_all_task_hosts, TaskHost.metadata, configurators.py"), ("tasks", "every module in streamtasks/system/tasks"), ("connection", "Client.out_topic / in_topic / sync_in_topics")],
       "Seeded random search. Sizes and rates are usable ones; tasks of devices, codecs, containers, models and named topics have other properties or none.")

  prop("T04", "What was stored stays stored, through crashes and failing disks",
       "A deployment, task, dashboard, secret or named topic whose creation, change or deletion was confirmed is found exactly like that afterwards, by every user and after every shutdown, crash or restart. "
       "A request that failed or was cut short by a crash or disk error has either taken effect as a whole or not at all, and changes nothing else. "
       "A secret is returned unchanged; what does not exist is reported as not found.",
       ["crash_points", "fault_sequences", "histories", "inputs"],
       "every overlap of create, change, delete, read and list requests by several users, with death before, during or after any single disk operation, full disks, failing and short writes, loss of power, and any number of restarts",
       "tests never restart what stores, and never let the disk fail",
       ["streamtasks/pydanticdb.py", "streamtasks/system/task_web.py", "streamtasks/system/secret_manager.py", "streamtasks/system/named_topic_manager.py"],
       [("stores", "PydanticDB.save, PydanticDB.load"), ("web interface", "TaskWebBackend.run_asgi_server"), ("secrets", "SecretManager.run_fetch_api"), ("named topics", "NamedTopicManager.run_fetch_api")],
       "Seeded random search; the crash point is chosen among all disk operations of the run. Loss of power is claimed for atomicity only (the directory is not flushed). Names given by an implicit look-up of an unknown topic name are not claimed to survive.")

  prop("T05", "Configured connections and servers are kept up, across restarts, and only those",
       "What the connection manager lists is exactly what was added and not removed, in spite of concurrent users, failing requests, shutdowns and crashes. "
       "Within bounded time it is connected to every listed reachable peer and accepts connections on every listed address; nothing that was removed or whose process has shut down still connects, listens or carries messages. "
       "Secrets in the addresses are never shown.",
       ["histories", "schedules", "fault_sequences", "crash_points"],
       "every order and overlap of adding, removing and listing, with peers that come and go, resets, clients that hang up, occupied addresses, addresses that are not supported, shutdown, crash and restart",
       "tests add one connection and one server once",
       ["streamtasks/system/connection_manager.py", "streamtasks/connection.py"],
       [("configuration", "ConnectionManager and its web routes"), ("connections", "AutoReconnector"), ("servers", "StreamServerBase, get_server")],
       "Seeded random search. The file format's own behaviour when the process dies in the middle of a write (ndbm) is not part of it.")

  prop("S01", "A transforming task answers each message of its input once and in order",
       "Timestamp updater, number to text, time to text, string matcher, text formatter and calculator put out exactly the converted message for each message they can convert, in the order of the input, with its timestamp. "
       "Whatever cannot be converted is left out or passed on as configured, and neither stops the task nor changes any later answer. "
       "Pauses of the input appear on the output between the same messages, and nobody else's copy of an input message is changed.",
       ["inputs", "schedules", "histories"],
       "every sequence of valid, invalid and extreme messages and pauses, in bursts or with gaps, over delayed links",
       "tests send a few well-formed messages to some of these tasks",
       ["streamtasks/system/tasks/timestampupdater.py", "streamtasks/system/tasks/numbertotext.py", "streamtasks/system/tasks/timetotext.py", "streamtasks/system/tasks/stringmatcher.py", "streamtasks/system/tasks/textformatter.py", "streamtasks/system/tasks/calculator.py", "streamtasks/message/utils.py"],
       [("conversion", "the run methods of the tasks"), ("messages", "streamtasks/message/utils.py, types.py"), ("pauses", "InTopic.recv_data_control, OutTopic.set_paused")],
       "Seeded random search against a reference for each task; calculator formulas are random over all operators and functions.")

  prop("S02", "Tasks with several inputs combine them in timestamp order and follow pauses",
       "Gate, switch, media switch, SR latch, string concatenator, text formatter, calculator and synchronizer put out what their inputs, taken in timestamp order where synchronised and in any order of arrival otherwise, call for, nothing else and nothing twice. "
       "A paused input holds nobody up; what is put out after it resumes takes it into account again. "
       "The output is shown as paused exactly when the inputs that feed it at that time are.",
       ["inputs", "schedules", "histories"],
       "every interleaving of messages and pauses on 2-4 inputs from different places, equal and rising timestamps, invalid messages, over delayed links",
       "tests send a fixed sequence with pauses long enough for everything to arrive",
       ["streamtasks/system/tasks/gate.py", "streamtasks/system/tasks/switch.py", "streamtasks/system/tasks/media/mediaswitch.py", "streamtasks/system/tasks/srlatch.py", "streamtasks/system/tasks/stringconcatenator.py", "streamtasks/system/tasks/textformatter.py", "streamtasks/system/tasks/calculator.py", "streamtasks/system/tasks/synchronizer.py", "streamtasks/client/topic.py"],
       [("combination", "the run methods of the tasks"), ("order", "SequentialInTopicSynchronizer, PrioritizedSequentialInTopicSynchronizer"), ("pauses", "InTopic.recv_data_control, OutTopic.set_paused")],
       "Seeded random search; after each phase the output is compared with all outputs that some order of taking the inputs allows. Pause states are judged once nothing is on its way any more.")

  prop("S03", "A time buffer delays every message by its size, loses none, leaves no files",
       "By system time, each message leaves a time buffer its configured time after its timestamp or on arrival if that is past, behind those before it; by message time, once a message younger by that time is there. "
       "All messages come out unchanged and in order, and the output is shown as paused when the input is and nothing is left inside. "
       "A stopped task sends nothing early and leaves no temporary files.",
       ["inputs", "schedules", "histories"],
       "every sequence of messages of up to 200 kB with past, present, future and missing timestamps, bursts, pauses at any moment, sizes from 1 ms to 3 s, stop with messages inside",
       "the tests do not cover it",
       ["streamtasks/system/tasks/timebuffer.py", "streamtasks/rawdatabuffer.py"],
       [("delay", "TimeBufferTask.run_sender_clock, run_sender_message"), ("storage", "RawDataBuffer"), ("pauses", "TimeBufferTask.run_receiver")],
       "Seeded random search. A buffer in message mode whose input is paused keeps what waits for a younger message; nothing is claimed about when that comes out.")

  prop("S04", "A replay buffer plays what it recorded at its pace, when told to and only then",
       "While it is switched on, a replay buffer puts out the messages recorded since its input last resumed, unchanged and in order, the first at once on the clock of the play signal and each other at its distance in time, once or over and over as configured, and then is shown as paused. "
       "Switched off it is shown as paused and puts out nothing, and neither does it after the task has ended. "
       "However often and quickly it is switched, the last signal decides.",
       ["inputs", "schedules", "histories"],
       "every sequence of recording, playing, stopping and starting over at any moment relative to each other, messages with equal and missing timestamps, recordings that take no time, over delayed links",
       "the tests do not cover it",
       ["streamtasks/system/tasks/replaybuffer.py", "streamtasks/rawdatabuffer.py", "streamtasks/client/topic.py"],
       [("playing", "ReplayBufferTask.play, stop_play, update_playing_state"), ("recording", "ReplayBufferTask.run_input_receiver, RawDataBuffer"), ("pauses", "OutTopic.set_paused")],
       "Seeded random search. Nothing is claimed about messages recorded after the playing has reached the end of a recording.")

  prop("S05", "Repeater, message detector and pulse generator keep pace and follow their input",
       "A repeater puts out the latest message of its input at its rate with the time that has passed added to the timestamp, from the first message on, except while the input is paused; what cannot be repeated is passed on or ends the repetition, as configured. "
       "A message detector's last signal is 1 exactly while its input is neither paused nor timed out nor invalid, and is repeated as configured. "
       "A pulse generator pulses at its interval; none of them is thrown off by jumps of the system clock.",
       ["inputs", "schedules", "histories", "fault_sequences"],
       "every sequence of valid and invalid messages and pauses, in bursts and with gaps around the time-out, jumps of the clock by seconds and hours in both directions, over delayed links",
       "the tests do not cover them",
       ["streamtasks/system/tasks/repeater.py", "streamtasks/system/tasks/messagedetector.py", "streamtasks/system/tasks/pulsegenerator.py", "streamtasks/utils.py"],
       [("repetition", "RepeaterTask._run_sender"), ("state", "MessageDetectorTask.run_main, run_watcher, run_updater"), ("pulse", "PulseGeneratorTask.run")],
       "Seeded random search; rates and states are judged with 0.6 s tolerance. Timestamps between a clock jump and the next input message are not judged.")

  prop("S06", "What users set in a control is published, what reaches a display is shown",
       "A valid value a user sets in a control is taken over, published on its outputs with the current time and repeated as configured; an invalid one is refused and changes nothing. "
       "Reading the value gives one that was set or received and not yet superseded, and once nothing changes any more, the value read, the one last published and the one last told to every open browser are the same. "
       "Displays take over every valid message in order and ignore invalid ones.",
       ["histories", "schedules", "inputs"],
       "every overlap of setting, reading, watching and leaving by several users over the network with each other and with messages arriving in bursts, for seven kinds of controls and displays",
       "the tests do not cover them",
       ["streamtasks/system/tasks/ui/controlbase.py", "streamtasks/system/tasks/ui/switchui.py", "streamtasks/system/tasks/ui/sliderui.py", "streamtasks/system/tasks/ui/radiobuttonsui.py", "streamtasks/system/tasks/ui/textinput.py", "streamtasks/system/tasks/ui/statusdisplay.py", "streamtasks/system/tasks/ui/textdisplay.py", "streamtasks/system/tasks/ui/valuedisplaybar.py"],
       [("value and web interface", "UIBaseTask"), ("publishing", "UIControlBaseTask.run_other"), ("displays", "run_other of the display tasks")],
       "Seeded random search. A value superseded before it was published may be left out. Audio and video displays are not part of it.")

  prop("S07", "Media converters and meters treat every message once, in order, at its time",
       "Volume scaler, volume meter, activity meter, video layout, audio resampler and video reformatter put out for each valid audio or video message exactly what it converts to, in order, with its time, and scale with the volume that was set for that time. "
       "Malformed messages are left out and end nothing, loud or extreme samples never wrap around. "
       "The output is shown as paused only after everything that came before the pause was sent, however slow the worker thread is.",
       ["inputs", "schedules", "histories"],
       "every sequence of valid, malformed and extreme audio and video messages and pauses, in bursts or with gaps, with worker threads that are slow to wake, stop with work queued",
       "the tests do not cover them",
       ["streamtasks/system/tasks/media/audiovolumescaler.py", "streamtasks/system/tasks/media/audiovolumemeter.py", "streamtasks/system/tasks/media/videoactivitymeter.py", "streamtasks/system/tasks/media/videolayout.py", "streamtasks/system/tasks/media/audioresampler.py", "streamtasks/system/tasks/media/videoreformatter.py", "streamtasks/media/audio.py", "streamtasks/media/video.py", "streamtasks/media/util.py", "streamtasks/system/task.py"],
       [("threaded work", "SyncTask"), ("conversion", "the run methods of the tasks"), ("samples and frames", "AudioFrame, VideoFrame"), ("chunks", "AudioChunker")],
       "Seeded random search. Volume of u8 audio is not claimed.")

  prop("S08", "What a mixer puts out is what its tracks hold for that time",
       "An audio mixer puts out one unbroken stream in which every moment is the sum of what its active tracks hold for it, clipped to the sample format, once all of them have got there; nothing is lost, repeated or shifted. "
       "A video mixer lays the latest frames of its tracks over each other on the configured background, in the order of the tracks, once for each round of frames. "
       "Paused tracks are left out and hold nobody up, malformed messages change nothing.",
       ["inputs", "schedules", "histories"],
       "every sequence of messages on 1-3 tracks with gaps, overlaps, loud samples, transparent frames, tracks that are late, paused or malformed",
       "the tests do not cover them",
       ["streamtasks/system/tasks/media/audiomixer.py", "streamtasks/system/tasks/media/videomixer.py", "streamtasks/media/util.py", "streamtasks/media/audio.py", "streamtasks/media/video.py", "streamtasks/media/video_perf_all.cpp"],
       [("mixing", "AudioMixerTask, VideoMixerTask"), ("time", "AudioSequencer"), ("layers", "video_perf")],
       "Seeded random search. Stretching is not claimed; overlaps longer than a message are judged for bounds only.")

  prop("S09", "Media encoded on one node and decoded on another comes out as it went in",
       "Audio or video that passes an encoder, the network and a decoder comes out once, in order, with its content (exactly for lossless codecs) and at the time it went in. "
       "Packets that are lost cost only what they carried, as far as every packet stands for itself. "
       "Malformed messages to either task end neither of them.",
       ["inputs", "schedules", "histories", "fault_sequences"],
       "every sequence of frames with exact, rounded and jittering timestamps, gaps, frame rates that are not whole, reordering codecs, lost packets and malformed messages, over delayed links",
       "the tests encode one well-formed stream with one codec and compare shapes",
       ["streamtasks/system/tasks/media/audioencoder.py", "streamtasks/system/tasks/media/audiodecoder.py", "streamtasks/system/tasks/media/videoencoder.py", "streamtasks/system/tasks/media/videodecoder.py", "streamtasks/media/codec.py", "streamtasks/media/packet.py", "streamtasks/media/audio.py", "streamtasks/media/video.py"],
       [("time", "MediaPacket, CodecContext"), ("tasks", "the run methods of the four tasks")],
       "Seeded random search; the codecs themselves are FFmpeg's and run as they are.")

  prop("S10", "A recording holds what its tracks carried, in order and in time",
       "The file an output container writes holds, per track, the packets that arrived on its topic, once, in order and unchanged, each at the time it was sent relative to the first. "
       "Tracks that start late, pause, resume or carry malformed messages neither end the recording nor hold back what the others carry. "
       "Whenever the task ends the file is complete and readable, and an error (destination, secret, disk) ends the task with that error.",
       ["inputs", "schedules", "histories", "fault_sequences"],
       "every arrival order of packets of several tracks, with pauses, late and reordered messages, slow and failing writes, and the stop at any moment, also while a packet is being written",
       "the tests write one well-formed recording and need network sources",
       ["streamtasks/system/tasks/media/outputcontainer.py", "streamtasks/media/container.py", "streamtasks/media/packet.py"],
       [("order and start", "OutputContainerSynchronizer"), ("writing and closing", "OutputContainer, AVOutputStream"), ("task", "OutputContainerTask")],
       "Seeded random search. Nothing is recorded before every track had a packet; a running track that falls silent holds the others up; both as designed.")

  prop("S11", "What a file holds is played once, in order and at its time",
       "An input container publishes every packet of the tracks it plays once, in the order of the file, unchanged, with the times of the file relative to a start that all tracks share. "
       "In real time no packet is published before its time or, unless the source or the machine held it up, noticeably after it. "
       "The task ends by itself after the last packet, with the error when the source, a track or the secret is missing or reading fails, and when stopped; nothing is published and the file is not read after that.",
       ["inputs", "schedules", "histories", "fault_sequences"],
       "every overlap of reading in a thread, pacing, transcoding, the end, stalls and errors of the disk at any packet, and the stop at any moment",
       "the tests demultiplex one file without the task, its pace or any fault",
       ["streamtasks/system/tasks/media/inputcontainer.py", "streamtasks/media/container.py", "streamtasks/media/packet.py", "streamtasks/utils.py"],
       [("pace and times", "InputContainerTask"), ("reading", "_Demuxer, AVInputStream, InputContainer"), ("units", "MediaPacket.from_av_packet")],
       "Seeded random search over files. Network sources are not claimed, nor transcoding of codecs whose header has no frame rate.")

  prop("U01", "Consumers of a shared producer get every item, then its end or its error",
       "However consumers register, wait, give up and leave, each gets every item that matches it from when it registered, once and in order, and then the end or the error of the producer, with nobody left waiting. "
       "The producer runs while at least one consumer waits, never twice at a time, and stops when nobody does. "
       "Cancelling a consumer ends it and disturbs no other.",
       ["schedules", "histories", "fault_sequences"],
       "every overlap of waiting, time limits, cancellation, closing and the end or failure of the producer, in the event loop or in a thread",
       "tests read one file with one or two well-behaved consumers",
       ["streamtasks/utils.py", "streamtasks/media/container.py"],
       [("producer life cycle", "AsyncProducer, AsyncMPProducer"), ("queues", "AsyncConsumer"), ("users", "InputContainer, OutputContainer in media/container.py")],
       "Seeded random search. A producer whose run returns without an end is not claimed.")

  prop("F01", "A function task calls its function once per message with the latest inputs",
       "Once every input has had a message, each further valid message calls the function once with the newest value of each input, the message's timestamp, the task's own state and its config. "
       "Calls never overlap, follow the order of the messages (by timestamp when synchronised), and each result is published once with the timestamp of its call. "
       "A call that fails ends the task with that error and no further call.",
       ["inputs", "schedules", "histories", "fault_sequences"],
       "every interleaving of messages of several inputs with slow, threaded and failing calls, invalid messages, pauses, and the stop of the task during a call",
       "there are no tests of function tasks",
       ["streamtasks/system/fntask.py", "streamtasks/client/topic.py"],
       [("calls", "_FnTask"), ("what a function takes and returns", "FnTaskConfig.from_function, execute"), ("creation", "_FnTaskHost.create_task")],
       "Seeded random search. Functions without inputs, and functions that themselves raise a pydantic ValidationError, are not claimed.")
