G = "MQTTSNGateway/src/"
GNOTE = ("One event handled from an arbitrary client state: every packet content and length, every client status, every flag value; all paths of the handling thread's loop body "
         "through the handlers down to the queues. Tables and queues are contracts at this level (any result of a look-up). Trusted: clang front end, the IR dump, the abstract interpreter, "
         "the models of libc and std::string. Assumes allocation succeeds, client types Normal and Forwarded, topic names without NUL, MQTT version 3.1 or 3.1.1.")
ORC = AI + "; every abstract path compared, byte by byte, with an executable specification"
TG = "the gateway's tests cover only its containers; no test passes a message through a handler"
HF = [G + "MQTTSNGWPacketHandleTask.cpp", G + "MQTTSNGWPacket.cpp", G + "MQTTGWPacket.cpp", G + "MQTTSNGWClient.cpp"]

prop("H01", "CONNECT and will of a client become one correct CONNECT at the broker",
     "A well-formed MQTT-SN CONNECT of a client that is neither asleep nor awake results in an MQTT CONNECT to the broker carrying the client's id, keep-alive, clean-session flag and the gateway's "
     "login; if it announces a will, the client is first asked for will topic and will message with WILLTOPICREQ and WILLMSGREQ, and the one CONNECT that follows carries topic, message, will QoS and retain "
     "exactly as received. A clean session forgets registered topics and pending acknowledgements. A client that was asleep gets CONNACK at once and then its stored messages in order. Malformed packets have no effect; unexpected WILLTOPIC and WILLMSG neither.",
     ["inputs", "histories"], "every packet content and length, every client status, all flag combinations, with and without login and password",
     TG, HF + [G + "MQTTSNGWConnectionHandler.cpp"],
     [("CONNECT/WILLTOPIC/WILLMSG handling", "MQTTSNConnectionHandler::handleConnect, handleWilltopic, handleWillmsg"), ("CONNECT construction", "MQTTGWPacket::setCONNECT"), ("state kept in between", "Client::_connectData, _willTopic, _willMsg, _waitWillMsgFlg")],
     ["events posted to the client and broker send queues", "client state"], ORC, GNOTE)
prop("H02", "CONNACK, PINGRESP and DISCONNECT of the broker reach the client correctly",
     "A broker's CONNACK becomes a MQTT-SN CONNACK with accepted for 0, congestion for server-unavailable and not-supported for the other refusals, and makes the client active or disconnected accordingly; "
     "a PINGRESP becomes a PINGRESP and sends an awake client back to sleep; a DISCONNECT makes the client disconnected. Malformed packets have no effect.",
     ["inputs"], "every packet content and length, every client status", TG, HF + [G + "MQTTGWConnectionHandler.cpp"],
     [("broker connection messages", "MQTTGWConnectionHandler::handleConnack, handlePingresp"), ("state change", "Client::connackSended, updateStatus, disconnected")],
     ["events posted to the client send queue", "client state"], ORC, GNOTE)
prop("H03", "A client's PUBLISH reaches the broker with topic, QoS, id and payload intact",
     "A well-formed PUBLISH of a client is forwarded as an MQTT PUBLISH with the name of the topic the id stands for (its registered or predefined topic, the gateway's predefined topic, or the short name itself), the same payload, dup, retain and "
     "message id, and the same QoS (-1 as 0); for QoS 1 the topic id is remembered for the acknowledgement. With an unknown topic id nothing is forwarded and QoS 1 and 2 are answered with PUBACK "
     "invalid-topic-id for that topic id and message id. A PUBLISH that is malformed or has QoS 1 or 2 and message id 0 has no effect.",
     ["inputs", "histories"], "every packet content and length, both length forms, every topic kind, QoS and client status, every state of the topic tables", TG,
     HF + [G + "MQTTSNGWPublishHandler.cpp"],
     [("PUBLISH handling", "MQTTSNPublishHandler::handlePublish"), ("MQTT PUBLISH construction", "MQTTGWPacket::setPUBLISH"), ("topic look-up", "Topics::getTopicById, Topics::add"), ("awaited acknowledgements", "Client::setWaitedPubTopicId")],
     ["events posted to the broker and client send queues", "awaited acknowledgements"], ORC, GNOTE)
prop("H04", "A broker's PUBLISH reaches the client, after REGISTER when its topic is new",
     "A PUBLISH from the broker for an active or awake client is sent as MQTT-SN PUBLISH with the same payload, dup, QoS, retain and message id and the topic id that stands for its topic; two-byte topics are sent as short topics; "
     "a topic that has no id yet is added to the client's topics, announced with REGISTER under a non-zero message id, and the PUBLISH is kept for the REGACK with exactly that message id. For a sleeping client "
     "an identical copy is stored and QoS 1 and 2 are acknowledged to the broker. A message that cannot be delivered because it is too big or its topic is unknown in a clean session is acknowledged and dropped. "
     "Malformed packets, and packets for clients that are not connected, have no effect.",
     ["inputs", "histories"], "every packet content and length, every QoS, client status and state of the client's topics", TG, HF + [G + "MQTTGWPublishHandler.cpp"],
     [("PUBLISH handling", "MQTTGWPublishHandler::handlePublish, replyACK"), ("MQTT-SN PUBLISH and REGISTER construction", "MQTTSNPacket::setPUBLISH, setREGISTER"), ("pending publishes", "WaitREGACKPacketList::setPacket"), ("stored messages", "Client::setClientSleepPacket")],
     ["events posted to the client and broker send queues", "stored and pending messages"], ORC, GNOTE)
prop("H05", "SUBSCRIBE and UNSUBSCRIBE are relayed and answered for the right topic",
     "A well-formed SUBSCRIBE or UNSUBSCRIBE is relayed to the broker with the message id, the requested QoS and the topic filter it names (by name, predefined id or short name); the broker's SUBACK is answered to the client "
     "with the granted QoS, the topic id of the filter (0 for a wildcard) and the message id, or with invalid-topic-id on refusal, and UNSUBACK with the message id. A filter whose id is unknown is answered at once, by SUBACK with invalid-topic-id or by UNSUBACK. Malformed packets, "
     "reserved topic types and message id 0 have no effect.",
     ["inputs", "histories"], "every packet content and length, every topic type, QoS 0 to 2, every client status and state of the topic tables", TG,
     HF + [G + "MQTTSNGWSubscribeHandler.cpp", G + "MQTTGWSubscribeHandler.cpp"],
     [("SUBSCRIBE/UNSUBSCRIBE handling", "MQTTSNSubscribeHandler::handleSubscribe, handleUnsubscribe"), ("SUBACK/UNSUBACK handling", "MQTTGWSubscribeHandler::handleSuback, handleUnsuback"), ("awaited SUBACKs", "Client::setWaitedSubTopicId")],
     ["events posted to the broker and client send queues"], ORC, GNOTE)
prop("H06", "Acknowledgements are relayed with the right kind, message id and topic id",
     "PUBACK (accepted), PUBREC, PUBREL and PUBCOMP of an active client are relayed to the broker as the same MQTT message with the same message id and the reserved flag bits MQTT prescribes; those of the broker are relayed to an active or awake client, a PUBACK with the topic id of the "
     "PUBLISH it acknowledges, after which that id is no longer awaited; a PUBACK nobody awaits is not relayed; a PUBREL for a sleeping client is completed by the gateway. Malformed acknowledgements have no effect.",
     ["inputs", "histories"], "every packet content and length, every client status, every state of the awaited acknowledgements", TG,
     HF + [G + "MQTTSNGWPublishHandler.cpp", G + "MQTTGWPublishHandler.cpp"],
     [("client to broker", "MQTTSNPublishHandler::handlePuback, handleAck"), ("broker to client", "MQTTGWPublishHandler::handlePuback, handleAck"), ("MQTT ack construction", "MQTTGWPacket::setAck")],
     ["events posted to the broker and client send queues", "awaited acknowledgements"], ORC, GNOTE)
prop("H07", "DISCONNECT and PINGREQ: sleeping, waking and leaving clients are served right",
     "DISCONNECT without duration is answered and passed on to the broker and makes the client disconnected; with a non-zero duration it is answered only, and the client is asleep. PINGREQ of a sleeping client with stored messages delivers all of them, in order and once, before the "
     "PINGREQ is completed; otherwise PINGREQ is passed on to the broker; a sleeping client is awake after it. Every message of an active client restarts its keep-alive supervision.",
     ["inputs", "histories"], "every packet content and length, every client status; 0 to 3 stored messages (they are delivered by one loop)", TG,
     HF + [G + "MQTTSNGWConnectionHandler.cpp"],
     [("DISCONNECT and PINGREQ handling", "MQTTSNConnectionHandler::handleDisconnect, handlePingreq, sendStoredPublish"), ("client state", "Client::updateStatus")],
     ["events posted to the queues", "client state"], ORC, GNOTE)
prop("H08", "Every other message gets exactly the defined reply, or none",
     "WILLTOPICUPD and WILLMSGUPD are answered with WILLTOPICRESP and WILLMSGRESP not-supported; SEARCHGW is answered with GWINFO carrying the gateway's id; when the advertising period is over ADVERTISE with the gateway's id and the period is broadcast. "
     "Messages that only a gateway, or only a client, may send are ignored without effect on the client.",
     ["inputs"], "every other message type from client and broker, every packet content and length, every client status", TG, HF + [G + "MQTTSNGWConnectionHandler.cpp"],
     [("dispatch", "PacketHandleTask::run, transparentPacketHandler"), ("replies", "MQTTSNConnectionHandler::handleWilltopicupd, handleWillmsgupd, handleSearchgw, sendADVERTISE")],
     ["events posted to the queues", "client state"], ORC, GNOTE)
prop("H09", "REGISTER and REGACK bind names to ids and release waiting messages",
     "A REGISTER of an active or awake client adds the topic name to the client's topics and is answered with REGACK carrying the topic's id and the message id, or congestion when the table is full. A REGACK releases the PUBLISH that waits for that message id, exactly once, and "
     "when it was the last one of a held PINGREQ the PINGREQ is passed on. Other clients' REGISTER and REGACK have no effect.",
     ["inputs", "histories"], "every packet content and length, every client status, every state of the topics and of the waiting messages", TG,
     HF + [G + "MQTTSNGWPublishHandler.cpp"],
     [("REGISTER/REGACK handling", "MQTTSNPublishHandler::handleRegister, handleRegAck"), ("waiting messages", "WaitREGACKPacketList")],
     ["events posted to the queues", "client's topics", "waiting messages"], ORC, GNOTE)
prop("H10", "After every message the client is in the state the protocol prescribes",
     "For each message from the client or the broker, the client's status (disconnected, connecting, active, asleep, awake, lost), its expected-will flag, session flag, keep-alive duration and held PINGREQ after handling are exactly those the MQTT-SN client state machine prescribes "
     "for the state before and the message; ill-formed messages change nothing.",
     ["inputs", "histories"], "every message type and content, every client state before", TG, HF,
     [("state machine", "Client::updateStatus, connackSended, disconnected, setSessionStatus, setKeepAlive"), ("will state", "Client::setWaitWillMsgFlg"), ("held PINGREQ", "Client::holdPingRequest, resetPingRequest")],
     ["client state after handling"], ORC, GNOTE, state=[("Client::_status", "where the client is in its life cycle", G + "MQTTSNGWClient.h")])
prop("M01", "No message content can make the gateway's handlers misuse memory",
     "Whatever bytes a client or the broker sends, handling the message reads and writes only inside live objects, never through a null pointer, and frees each object once.",
     ["inputs"], "every message type, every packet content and length, every client status and table state",
     TG + "; overflows need crafted lengths", HF + [G + "MQTTSNGWPublishHandler.cpp", G + "MQTTGWPublishHandler.cpp", G + "MQTTSNGWSubscribeHandler.cpp", G + "MQTTGWSubscribeHandler.cpp", G + "MQTTSNGWConnectionHandler.cpp", G + "MQTTGWConnectionHandler.cpp"],
     [("packet accessors", "MQTTSNPacket::get*, MQTTGWPacket::get*"), ("packet builders", "MQTTSNPacket::set*, MQTTGWPacket::set*"), ("handlers", "MQTTSN*Handler, MQTTGW*Handler")],
     ["memory accesses of the handling thread"], AI + ": bounds, liveness and null obligations on every access", GNOTE)
prop("O01", "Every packet and event is freed exactly once or handed on",
     "When a message has been handled, every packet, event, string and element allocated on the way and the received packet itself have either been freed or are owned by a queue, a table or the client: the gateway neither leaks nor double-frees on any path, including malformed, refused and discarded messages.",
     ["inputs", "fault_sequences"], "every message type, content, client status and table state; failing table operations", TG + "; a leak has no visible effect in a short test",
     HF + [G + "MQTTSNGWPublishHandler.cpp", G + "MQTTGWPublishHandler.cpp", G + "MQTTSNGWSubscribeHandler.cpp", G + "MQTTGWSubscribeHandler.cpp", G + "MQTTSNGWConnectionHandler.cpp"],
     [("ownership transfer", "EventQue::post, Event::~Event, Client::setClientSleepPacket, WaitREGACKPacketList::setPacket"), ("discard paths", "MQTTGWPublishHandler::discard, handlePublish")],
     ["objects reachable when the event has been handled"], AI + ": ownership, reachability of allocated objects at the end of every path", GNOTE)

RNOTE = ("One iteration of the task's loop from unknown input and an arbitrary state of the client. Client, forwarder and adapter look-ups are contracts (any result); the network's system calls are, too. "
         "Trusted: clang front end, the IR dump, the abstract interpreter, the models of libc and std::string. Assumes allocation succeeds.")
TT = "no test runs the task; what arrives, and when, is up to the network"
prop("R01", "A datagram becomes exactly one event, for the client it came from",
     "A datagram of the sensor network is handed to the packet handling thread unchanged, exactly once and for the client it belongs to: the one registered under the sender's address, the forwarder's one with the node id in the encapsulation (whose header is removed), the one with the id in a CONNECT "
     "(which then has the sender's address, or is reached through the forwarder), the QoS-1 proxy's for a PUBLISH with QoS -1 of one of its addresses, or a new one for the CONNECT of an authorised client. SEARCHGW becomes a broadcast. ADVERTISE, GWINFO, malformed and encapsulated datagrams of unknown forwarders, and "
     "messages of unknown clients other than CONNECT are discarded; a disconnected client's message, other than CONNECT or an expected will, is answered with DISCONNECT instead.",
     ["inputs", "histories"], "every datagram of up to 1024 bytes, either form of the length, every result of the look-ups, every client state, client authentication on and off, with and without the QoS-1 proxy",
     TT, [G + "MQTTSNGWClientRecvTask.cpp", G + "MQTTSNGWPacket.cpp", G + "MQTTSNGWEncapsulatedPacket.cpp", G + "MQTTSNGWClient.cpp"],
     [("dispatch", "ClientRecvTask::run"), ("reading", "MQTTSNPacket::recv"), ("encapsulation", "MQTTSNGWEncapsulatedPacket::desirialize, getMQTTSNPacket")],
     ["events posted to the packet event and client send queues", "clients created, and their addresses"], ORC, RNOTE)
TFN = [G + "MQTTSNGWClientSendTask.cpp", G + "MQTTSNGWPacket.cpp", G + "MQTTSNGWEncapsulatedPacket.cpp", G + "MQTTSNGWForwarder.cpp"]
prop("R02", "A packet for the sensor network is sent once, unchanged, to the right address",
     "Every packet queued for the sensor network is sent exactly once and byte for byte: broadcasts by broadcast, replies to an unregistered sender to the address of the datagram that caused them, a client's packets to the client's address; those of a client behind a forwarder "
     "go to the forwarder, encapsulated with the node id the client has there; those of the QoS-1 proxy and of the aggregater are handed to these. A stop ends the task.",
     ["inputs", "histories"], "every event, every packet content and length in either form of the length field, every address, every node id of up to 252 bytes, every client type", TT, TFN,
     [("dispatch", "ClientSendTask::run"), ("sending", "MQTTSNPacket::unicast, broadcast"), ("encapsulation", "MQTTSNGWEncapsulatedPacket::serialize")],
     ["the calls of SensorNetwork::unicast and broadcast: data, length and address"], ORC, RNOTE)
prop("R03", "A packet for the broker is sent once, unchanged, on the client's own connection",
     "Every packet queued for the broker is sent exactly once and byte for byte, with its remaining length encoded in as few bytes as it needs, on the connection of the client it is of: its own, or, for a QoS-1 or aggregated client, that of the proxy's or aggregater's client with the same security. A CONNECT opens a new connection, "
     "anything else one if there is none, to the configured broker and port, with TLS and the configured keys if the client is secure; the client is connecting before its CONNECT is sent. After DISCONNECT the connection is closed and the client disconnected; if sending fails, the connection is closed and the packet handling thread is told with a DISCONNECT. Other connections are not touched.",
     ["inputs", "fault_sequences", "histories"], "every packet type, flags, content and length up to 65530 bytes, every client type and status, secure or not, connection open or not, connecting and sending with every result", TT,
     [G + "MQTTSNGWBrokerSendTask.cpp", G + "MQTTGWPacket.cpp", G + "MQTTSNGWClient.cpp"],
     [("dispatch", "BrokerSendTask::run"), ("sending", "MQTTGWPacket::send, getPacketData")],
     ["the calls of Network::connect, send and close", "events posted to the packet event queue", "client status"], ORC, RNOTE)
prop("R04", "What the broker sends becomes one event per packet, for the connection's client",
     "The task waits for every open connection of a client. From a connection with data exactly one whole packet is read, however the stream is cut into pieces, and every packet a client can be sent becomes exactly one event for the client of that connection, with its fixed header and content unchanged; the connection is kept. "
     "When the broker ends a connection, it is closed and the client disconnected; a failing or malformed connection of a client that is active, asleep or awake is closed, too. Connections without data are left alone. A stop ends the task.",
     ["inputs", "fault_sequences", "schedules"], "every packet type and content, remaining lengths in one to four bytes (up to 65535) and malformed ones, up to two short reads in a packet at every position, failing and ending reads anywhere, two clients with every combination of open and ready, connections that go away meanwhile", TT,
     [G + "MQTTSNGWBrokerRecvTask.cpp", G + "MQTTGWPacket.cpp"],
     [("dispatch", "BrokerRecvTask::run"), ("reading", "MQTTGWPacket::recv")],
     ["events posted to the packet event queue", "bytes read from each connection", "the calls of Network::close", "client status"], ORC, RNOTE)
LKF = [G + "linux/Threading.cpp", G + "MQTTSNGateway.cpp", G + "MQTTSNGWClientList.cpp", G + "MQTTSNGWForwarder.cpp", G + "linux/Network.cpp", G + "MQTTSNGWProcess.cpp"]
LKT = "no test runs two threads of the gateway; a lock that is lost or missing shows itself only under one schedule or on an error path"
LKNOTE = ("All functions of the gateway that can take or release a lock, in the five variants (UDP, UDP6, XBee, LoRaLink, RFCOMM), every path, called with arguments and results about which nothing is known. "
          "Locks are told apart by the member that holds them. Trusted: clang front end, the IR dump, the abstract interpreter. Assumes that locking a mutex of the gateway does not fail.")
prop("T01", "Every lock is released on every path and no thread can wait forever for one",
     "A function of the gateway that takes a lock has released it on every path that leaves it, whether it returns, leaves a loop early or an exception passes through; no lock is taken twice by the same thread, "
     "none is released that is not held, the order in which locks are taken has no cycle, and no thread waits for another one's event while it holds a lock. Mutex and Semaphore pass the operations on to the system and report failures.",
     ["schedules", "fault_sequences"], "every path of every function that takes or releases a lock, results of called functions unknown, exceptions wherever a called function throws one, the five kinds of sensor network", LKT, LKF,
     [("queues", "EventQue::post, wait, timedwait, setMaxSize, size"), ("lists", "ClientList::getClient, createClient, erase; Forwarder::addClient, getClient, eraseClient"), ("connections", "Network::connect, send, recv, close"), ("primitives", "Mutex, Semaphore")],
     ["the locks held where a function returns, throws, calls or waits"],
     "lock-set typestate by abstract interpretation of the LLVM IR, function summaries, lock-order graph", LKNOTE)
prop("T02", "What the tasks share is only touched under its lock",
     "The elements of a queue, the list of clients, the clients of a forwarder, the TLS session of a connection, the ring buffer of the log and the buffer of a log line are read and changed "
     "only by a thread that holds the lock of the object, or in its constructor, its destructor or the start of the program, before and after the tasks run; the counts kept with them (queued events, clients, stopped tasks) and the flags of a connection are changed only under it.",
     ["schedules"], "every access in the five variants of the gateway, in the function itself or in any of its callers", LKT, LKF,
     [("queues", "EventQue::_que"), ("clients", "ClientList::_firstClient, _endClient, _clientCnt"), ("forwarded clients", "Forwarder::_headClient"), ("connections", "Network::_ssl, _busy, _sslValid")],
     ["loads and stores of the shared members with the locks held"],
     "lock-set analysis of member accesses on the LLVM IR, propagated to the callers", LKNOTE + " The table of shared members is in sa/locks.py.")
prop("T03", "The gateway stops after SIGINT or the exception of a task",
     "SIGINT, and an exception that ends a task, are seen by every task and by the main loop. The main loop then posts one stop event to each of the three queues and waits until every task that was started has ended. "
     "The packet handling and the two sending tasks end at their stop event, the two receiving ones when they see the signal, and not before; each is counted exactly once, also when it ends with an exception, and then the process ends.",
     ["schedules", "fault_sequences"], "run() returning or throwing in each of the five tasks, 0 to 5 tasks that end in any order, the signal at any iteration, every kind of event, every datagram and packet of the broker", LKT,
     [G + "MQTTSNGateway.cpp", G + "MQTTSNGWProcess.cpp", G + "linux/Threading.h"],
     [("stop events", "Gateway::run"), ("ends of the tasks", "EXECRUN (MAGIC_WORD_FOR_THREAD), run of each task"), ("main loop", "MultiTaskProcess::run, waitStop, threadStopped, attach, abort")],
     ["events posted", "calls of threadStopped and abort", "returns of the loops"], ORC,
     RNOTE + " Assumes that a queue is not full when the stop event is posted to it, and that threads can be created; that blocking calls return is not claimed.")

prop("N01", "Connections to the broker: to its address, verified, complete and in order",
     "A connection is made to the configured host and port. A TLS connection is reported only after a complete handshake, with a verified certificate that the broker showed and whose common name is the host's "
     "(or a wildcard for its domain), under the configured CA and the gateway's certificate and key. What is sent over it goes out completely and in order, or sending fails; what is received is what came; nothing is "
     "sent or read in clear text on a secure connection, and writing to a connection that is gone raises no signal. A failure leaves no session, socket or address behind, and the context and session shared by all clients are freed with the last.",
     ["inputs", "fault_sequences", "configurations"], "every result of every socket and OpenSSL call in every order (up to 2 partial reads or writes and 2 fruitless waits), every state of the connection before the call, every length",
     "no test opens a connection", [G + "linux/Network.cpp", G + "linux/Network.h"],
     [("TCP connection", "TCPStack::connect, close"), ("TLS connection", "Network::connect, close, isValid"), ("transfer", "Network::send, recv")],
     ["calls of the socket and OpenSSL functions", "results", "state of the connection"], AI + "; socket and OpenSSL functions are contracts that answer anything their manuals allow",
     "Trusted: clang front end, the IR dump, the abstract interpreter and the contracts of the socket and OpenSSL calls. Assumes allocation succeeds. At most two partial transfers in one call. "
     "That a wait for the socket ends, time-outs, and the use of the shared context by two connections at the same time are not claimed.")

prop("F01", "The gateway starts as its configuration says, or not at all",
     "The value of a parameter is what follows 'name=' in the configuration file given with -f (else ./gateway.conf), without the blanks around it, whatever other lines, comments and unfinished lines are there; a parameter that is not "
     "there has its default. With every combination of QoS-1, AggregatingGateway, Forwarder, ClientAuthentication and PredefinedTopic the gateway starts: as many clients as configured are allocated before the first is used, the "
     "lists are read in the order that QoS -1 clients, known clients and their topics need, each active adapter has its plain and its secure client, unknown clients are refused exactly with ClientAuthentication, and the sensor network is "
     "opened last, as configured. Without GatewayID (1 to 255) or GatewayName, without a readable list, or with too few clients, it reports that and does not start.",
     ["inputs", "configurations"], "every line up to 8 characters of any value after every kind of line; every subset of the switches, every parameter present or absent, all values of the numbers, texts of any length and content",
     "the tests read four parameters of one file", [G + "MQTTSNGateway.cpp", G + "MQTTSNGWProcess.cpp", G + "MQTTSNGWClientList.cpp", G + "MQTTSNGWAdapterManager.cpp", G + "MQTTSNGWAdapter.cpp", G + "linux/udp/SensorNetwork.cpp"],
     [("parameters", "Process::getParam, initialize"), ("start", "Gateway::Gateway, initialize"), ("lists", "ClientList::initialize"), ("adapters", "AdapterManager, QoSm1Proxy, Aggregater, Adapter initialize"), ("network", "SensorNetwork::initialize")],
     ["value returned by getParam", "GatewayParams", "order and arguments of list readers, client creation, UDPPort::open", "exceptions"], AI + " over an abstract domain of texts",
     "Trusted: clang front end, the IR dump, the abstract interpreter, the text domain and its models of std::string. A value in the file has no blank, comma, '=', '#', '/' or '*' inside (except file names given with -f). "
     "Lines of more than 126 characters and parameters longer than a line are not claimed, nor are the sensor networks other than UDP.")

prop("F02", "Lists of clients and topics: every entry, and only it, takes effect",
     "Each line of the list of clients, whatever blanks surround its fields and whether or not it ends with a newline, registers for the kind that is asked for (clients, QoS -1 clients, aggregated clients, forwarders) the id and the address it "
     "states, over TLS exactly with secureConnection, on an unstable line exactly with unstableLine; comments, blank lines and lines with an invalid address register nothing and do not affect others. Each line of the list of topics registers "
     "its topic under its number for its client, or with '*' for all; a client that is not known is created for it, except with ClientAuthentication. A missing list is reported, and reading leaves no memory or file behind.",
     ["inputs", "configurations"], "every combination of the four flags, four styles of blanks and line ends, each kind of list, every kind of disturbing line before an entry; ids, addresses, topics and numbers of any content",
     "no test reads a list", [G + "MQTTSNGWClientList.cpp", G + "linux/udp/SensorNetwork.cpp"],
     [("clients", "ClientList::createList, SensorNetAddress::setAddress"), ("topics", "ClientList::readPredefinedList, createPredefinedTopic")],
     ["arguments of createClient, addForwarder, createPredefinedTopic, Topics::add", "results"], AI + " over an abstract domain of texts",
     "Trusted: clang front end, the IR dump, the abstract interpreter, the text domain and its models of std::string, inet_addr and strtoul. Ids and topics contain no blank (nor bytes of the ideographic space), comma, or flag word; numbers are well formed and at most 65535. "
     "Not claimed: entries of QoS -1 clients or forwarders when the list is read for ordinary clients.")

prop("R05", "The gateway's own sessions: opened, kept alive and given up in time",
     "Each adapter that is configured (QoS -1 proxy, aggregator), and no other, is set up at the start with a client for plain and one for TLS connections, under names of their own; if there is no room for them the gateway does not start. "
     "They each have a session with the broker (and one over TLS if that is configured), in which their clients' packets travel: those of a client go on the session of its kind and security, and every other client's on its own. "
     "Whenever such a session is disconnected, or its CONNECT has not been answered in time, the periodic check queues exactly one CONNECT with its id and a keep-alive time; when it has been idle, or a PINGREQ has not been answered, exactly one PINGREQ, well before the "
     "broker would end the session; after the fourth PINGREQ in a row without answer the session counts as disconnected. CONNACK, PINGRESP and traffic start the time anew, each for its own session only; nothing else is sent. Packets kept for a session are handled "
     "unchanged and in order once it is connected. A timer is up exactly when its time has passed since it was last started, to two milliseconds, whatever the clock shows, and never before it is started or after it is stopped.",
     ["histories", "schedules", "configurations"], "every sequence of checks, answers, traffic, refusals and lost connections (all states reachable), every outcome of every timer; every reading of the clock; each combination of adapters, with and without TLS",
     "the tests never run the gateway for the minutes its timers need", [G + "MQTTSNGWAdapter.cpp", G + "MQTTSNGWAdapterManager.cpp", G + "MQTTSNGWQoSm1Proxy.cpp", G + "linux/Timer.cpp"],
     [("sessions", "Proxy::checkConnection, recv, savePacket"), ("which session", "AdapterManager::getClient, checkConnection; Adapter::send"), ("time", "Timer::start, isTimeup, stop")],
     ["states", "CONNECTs", "PINGREQs", "clock readings"], AI + "; all reachable states of a session are explored, timers are up or not as an oracle says",
     "Trusted: clang front end, the IR dump, the abstract interpreter, the queues' contracts (H08), the creation of the sessions' clients (F01). Not claimed: that the check runs while packets keep arriving (it runs when the queue has been empty for two seconds).")
prop("S01", "UDP networks: right sockets, whole datagrams, the right addresses",
     "Over UDP and UDP6 the gateway starts exactly if it has one datagram socket on GatewayPortNo and one, shareable with other programs, on the multicast port that has joined the configured group; else it reports failure, and when it ends no socket is left open. "
     "A broadcast is one datagram, unchanged, to the group at its port, as far as MulticastTTL (MulticastHops) says; a packet for a client is one datagram, unchanged, from the gateway's port to the client's address, and one for the sender of the last "
     "datagram goes back where that came from. Receiving waits on both sockets for a bounded time, reads only where a datagram has arrived, whole, within the buffer, and returns its length. An address written as host and port stands for just these; "
     "other texts and ports outside of 1 to 65535 are rejected. Two addresses match exactly if host and port are equal.",
     ["inputs", "fault_sequences", "configurations"], "every result of every socket call, every subset of sockets with a datagram, interrupted waits, two receptions in a row, every address, port, length and TTL, each parameter present or absent",
     "the tests open no sensor network", [G + "linux/udp/SensorNetwork.cpp", G + "linux/udp6/SensorNetwork.cpp"],
     [("start", "SensorNetwork::initialize, UDPPort::open, UDPPort6::open"), ("sending", "SensorNetwork::unicast, broadcast"), ("receiving", "SensorNetwork::read, getSenderAddress"), ("addresses", "SensorNetAddress::setAddress, isMatch")],
     ["calls of the socket functions", "results", "addresses"], AI + "; socket functions are contracts that answer anything their manuals allow",
     "Trusted: clang front end, the IR dump, the abstract interpreter, the text domain, the contracts of the socket functions (poll says ready with POLLIN alone). Not claimed: which interface multicast uses over IPv4, addresses of UDP6 without brackets.")
prop("S02", "Serial networks: whole frames with a right check byte, nothing else",
     "Over XBee and LoRaLink the gateway starts exactly if it could open its serial devices, which it sets up completely at the rate that is configured. The packet in each complete frame of the modem with a right check byte is delivered unchanged if it fits the "
     "buffer, and can be answered to its sender; a frame that is cut short, has no start byte or a wrong check byte, and a report of the modem, is never taken for a packet; no frame, of whatever length it announces, is written beyond a buffer. A packet of the "
     "gateway is written as one frame, special bytes escaped, with its address, length and check byte, and counts as sent exactly if the modem reports that frame as sent.",
     ["inputs", "fault_sequences", "configurations"], "every content of frames of the lengths listed, with all, none or some bytes escaped, cut at each byte, any wrong check byte, noise and other frames before; every announced length class; packets up to 1024 bytes; every kind of report",
     "the tests open no sensor network and have no modem", [G + "linux/xbee/SensorNetwork.cpp", G + "linux/loralink/SensorNetwork.cpp"],
     [("start", "SensorNetwork::initialize, SerialPort::open"), ("receiving", "XBee::recv, readApiFrame; LoRaLink::recv, readApiFrame"), ("sending", "XBee::send, LoRaLink::send")],
     ["streams of the modem", "frames written", "reports"], AI + "; the modem is a symbolic stream of bytes, the frame formats are the oracle",
     "Trusted: clang front end, the IR dump, the abstract interpreter, the frame formats of the check. Bounds: the lengths listed in the check. Not claimed: reports that come after their time-out, start bytes within frames, RFCOMM.")
