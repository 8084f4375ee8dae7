prop("X01", "End to end, QoS 1 and 2 messages survive lost packets and restarts",
     "Between an MQTT-SN client and the broker, a QoS 1 message is delivered at least once and a QoS 2 message exactly once, whatever packets the sensor network loses, repeats or reorders, and whatever of client, gateway and broker restarts.",
     ["histories", "crash_points", "schedules"], "every history of losses, repetitions and restarts", "tests run no network",
     [G + "MQTTSNGWPublishHandler.cpp", G + "MQTTGWPublishHandler.cpp"], [("relaying", "handlePublish, handleAck")], ["messages delivered at both ends"],
     na="Retransmission, deduplication and session state are kept by clients and brokers, which are not in this repository; the gateway only relays. Its share per event is claimed in H03-H06 and A01; the end-to-end property quantifies over runs of programs whose source is not here.")
prop("X02", "Packets are relayed, and sessions served, within bounded time",
     "A packet that has arrived is relayed within a bounded time under any load; no client, and not the gateway's own checks and advertisements, can be starved by the traffic of others.",
     ["schedules"], "every load and schedule", "tests measure no time",
     [G + "MQTTSNGWPacketHandleTask.cpp", G + "linux/Threading.cpp"], [("queues", "EventQue"), ("service loop", "PacketHandleTask::run")], ["time between reception and sending"],
     na="Depends on scheduler, network and load, for which no static argument gives a bound. (Known counterexample for the checks: they run only after two seconds without an event, see DESIGN.md.) That single loops end, and that threads neither deadlock nor miss a wake-up, is in T01, T03 and the rule on loops.")
prop("X03", "The C++ client MQTTSNClient keeps its promises",
     "MQTTSN::Client connects, publishes with the requested QoS, retries unacknowledged messages, keeps the session alive and delivers each message to the matching handler.",
     ["inputs", "histories"], "every sequence of calls and packets", "no test instantiates the template",
     ["MQTTSNClient/src/MQTTSNClient.h"], [("client", "MQTTSN::Client")], ["packets sent", "handlers called"],
     na="The class template is an unfinished port: instantiating connect, publish or yield does not compile (members and functions of the MQTT client that were never ported), so there is no program whose behaviour could be decided.")
prop("X04", "Over DTLS, clients are authenticated and their packets stay confidential",
     "The DTLS sensor network accepts only clients that complete the handshake, keeps each client's session apart, and never sends or accepts a packet in clear.",
     ["inputs", "fault_sequences"], "every handshake and record", "the tests open no sensor network",
     [G + "linux/dtls/SensorNetwork.cpp"], [("sensor network", "SensorNetwork, Connections")], ["records sent and received"],
     na="Confidentiality and authentication are OpenSSL's, whose source is not here, and the pinned build neither compiles nor links this sensor network; a static argument would concern the glue only, against an unverified model of OpenSSL's DTLS state machine.")
