G = "MQTTSNGateway/src/"
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


bug("connect-stale-flags", "H01", [(G + "MQTTSNGWConnectionHandler.cpp",
    "    memset(connectData, 0, sizeof(Connect));\n    if (!client->isAdapter())",
    "    if (client->isDisconnect())\n    {\n        memset(connectData, 0, sizeof(Connect));\n    }\n    if (!client->isAdapter())")],
    "a client that connects again, with CleanSession 0 and no will, while the gateway has it as active, having asked for a clean session before",
    "the broker gets the CleanSession flag of the previous CONNECT", r'''
    same("first CONNECT", d.sendSN("09 04 04 01 000a 636c31"), "client: broker: 100f00044d5154540402000a0003636c31");
    d.sendMQ("20020000");
    same("second CONNECT", d.sendSN("09 04 00 01 000a 636c31"), "client: broker: 100f00044d5154540400000a0003636c31");
''')

bug("willtopic-requested-once", "H01", [(G + "MQTTSNGWClient.cpp",
    "    _status = Cstat_Disconnected;\n    _waitWillMsgFlg = false;",
    "    _status = Cstat_Disconnected;"),
    (G + "MQTTSNGWConnectionHandler.cpp",
     "    if (data.willFlag)\n    {\n        /* create & send",
     "    if (data.willFlag && !client->isWaitWillMsg())\n    {\n        /* create & send")],
    "a client whose WILLTOPICREQ is lost and that resends its CONNECT (with will)",
    "the second CONNECT is forwarded to the broker with the will flag but no will", r'''
    same("CONNECT", d.sendSN("09 04 08 01 000a 636c31"), "client: 0206 broker:");
    same("CONNECT again", d.sendSN("09 04 08 01 000a 636c31"), "client: 0206 broker:");
''')

bug("connack-unavailable", "H02", [(G + "MQTTGWConnectionHandler.cpp",
    "        rc = MQTTSN_RC_REJECTED_CONGESTED;\n",
    "        rc = MQTTSN_RC_NOT_SUPPORTED;\n")],
    "a broker that answers CONNECT with 'server unavailable'",
    "the client is told NOT_SUPPORTED instead of CONGESTED and never retries", r'''
    same("CONNACK", d.sendMQ("20 02 00 03"), "client: 030501 broker:");
''')

bug("publish-qosm1-retain", "H03", [(G + "MQTTSNGWPublishHandler.cpp",
    "    pub.header.bits.dup = dup;\n    pub.header.bits.qos = (qos == 3 ? 0 : qos);\n",
    "    pub.header.bits.dup = dup;\n    pub.header.bits.qos = (qos & 1);\n")],
    "a PUBLISH with QoS 2",
    "QoS 2 messages are sent to the broker with QoS 0, QoS -1 messages with QoS 1", r'''
    same("PUBLISH", d.sendSN("0a 0c 42 41 42 0005 010203"), "client: broker: 3409000241420005010203");
''')

bug("publish-predefined-id", "H03", [(G + "MQTTSNGWPublishHandler.cpp",
    "    tid = topicid.data.id;\n",
    "    tid = topicid.data.id & 0x7fff;\n")],
    "a QoS 1 PUBLISH to a topic id above 32767",
    "PUBACK carries another topic id than the PUBLISH", r'''
    d.client->getTopics()->add("sensor/one", 0x9001);
    same("PUBLISH", d.sendSN("0a 0c 21 9001 0005 010203"), "client: broker: 3211000a73656e736f722f6f6e650005010203");
    same("PUBACK", d.sendMQ("40020005"), "client: 070d9001000500 broker:");
''')

bug("publish-register-msgid", "H04", [(G + "MQTTGWPublishHandler.cpp",
    "uint16_t regackMsgId = client->getNextSnMsgId();",
    "uint16_t regackMsgId = pub.msgId ? pub.msgId : 1;")],
    "two QoS 0 messages on new topics matching a wildcard subscription, before the client answers the first REGISTER",
    "both REGISTER messages have the same id; the second REGACK releases no message or the wrong one", r'''
    d.sendSN("08 12 00 0007 612f23");
    d.sendMQ("9003000700");
    string a = d.sendMQ("30 06 0003612f62 31"), b = d.sendMQ("30 06 0003612f63 32");
    same("ids differ", a.substr(8 + 8, 4) == b.substr(8 + 8, 4) ? "equal" : "distinct", "distinct");
''')

bug("publish-predefined-type", "H04", [(G + "MQTTGWPublishHandler.cpp",
    "            topicId.type = tp->getType();\n",
    "            topicId.type = MQTTSN_TOPIC_TYPE_NORMAL;\n")],
    "a message of the broker on a topic the client has by a predefined id",
    "PUBLISH says that the predefined id is a normal topic id", r'''
    d.client->getTopics()->add("sensor/one", 9);
    same("PUBLISH", d.sendMQ("30 0d 000a73656e736f722f6f6e65 31"), "client: 080c010009000031 broker:");
''')

bug("publish-asleep-qos2", "H04", [(G + "MQTTGWPublishHandler.cpp",
    "            replyACK(client, &pub, PUBACK);\n        }\n        else if (pub.header.bits.qos == 2)\n        {\n            replyACK(client, &pub, PUBREC);\n        }\n\n        MQTTGWPacket* msg",
    "            replyACK(client, &pub, PUBACK);\n        }\n        else if (pub.header.bits.qos == 2 && !pub.header.bits.dup)\n        {\n            replyACK(client, &pub, PUBREC);\n        }\n\n        MQTTGWPacket* msg")],
    "a QoS 2 message for a sleeping client that the broker sends again because PUBREC was lost",
    "the broker never gets a PUBREC and keeps sending the message", r'''
    d.client->updateStatus(Cstat_Asleep);
    same("PUBLISH", d.sendMQ("34 07 00024142 0005 31"), "client: broker: 50020005");
    same("PUBLISH again", d.sendMQ("3c 07 00024142 0005 31"), "client: broker: 50020005");
''')

bug("suback-late-erase", "H05", [(G + "MQTTGWSubscribeHandler.cpp",
    "            returnCode = MQTTSN_RC_REJECTED_INVALID_TOPIC_ID;\n        }",
    "            returnCode = MQTTSN_RC_REJECTED_INVALID_TOPIC_ID;\n            qos = 2;\n        }")],
    "a subscription the broker refuses",
    "the rejected SUBACK carries QoS 2", r'''
    d.sendSN("07 12 02 0008 4142");
    same("SUBACK", d.sendMQ("9003000880"), "client: 0813004142000802 broker:");
''')

bug("subscribe-predefined-qos", "H05", [(G + "MQTTSNGWSubscribeHandler.cpp",
    "        subscribe->setSUBSCRIBE((char*) topic->getTopicName()->c_str(), (uint8_t) qos, (uint16_t) msgId);\n\n    }\n    else if",
    "        subscribe->setSUBSCRIBE((char*) topic->getTopicName()->c_str(), (uint8_t) (qos > 0), (uint16_t) msgId);\n\n    }\n    else if")],
    "a SUBSCRIBE with QoS 2 to a predefined topic id",
    "the broker is asked for QoS 1", r'''
    d.client->getTopics()->add("sensor/one", 9);
    same("SUBSCRIBE", d.sendSN("07 12 41 0007 0009"), "client: broker: 820f0007000a73656e736f722f6f6e6502");
''')

bug("unsubscribe-unknown", "H05", [(G + "MQTTSNGWSubscribeHandler.cpp",
    "        if (topicFilter.type == MQTTSN_TOPIC_TYPE_PREDEFINED)\n        {\n            topic = client->getTopics()->getTopicById(&topicFilter);\n        }\n        else\n",
    "        if (topicFilter.type == MQTTSN_TOPIC_TYPE_PREDEFINED)\n        {\n            topic = _gateway->getTopics()->getTopicById(&topicFilter);\n        }\n        else\n")],
    "an UNSUBSCRIBE from a topic id predefined for that client only",
    "the client gets UNSUBACK but the broker keeps the subscription", r'''
    d.client->getTopics()->add("sensor/one", 9);
    same("UNSUBSCRIBE", d.sendSN("07 14 01 0007 0009"), "client: broker: a20e0007000a73656e736f722f6f6e65");
''')

bug("pubrel-awake", "H06", [(G + "MQTTGWPublishHandler.cpp",
    "    if (client->isActive() || client->isAwake())\n    {\n        MQTTSNPacket* mqttsnPacket",
    "    if (client->isActive())\n    {\n        MQTTSNPacket* mqttsnPacket")],
    "a PUBREC of the broker for a client that is awake",
    "the acknowledgement is dropped and the QoS 2 exchange never finishes", r'''
    d.client->updateStatus(Cstat_Awake);
    same("PUBREC", d.sendMQ("50 02 0005"), "client: 040f0005 broker:");
''')

bug("puback-rejected", "H06", [(G + "MQTTSNGWPublishHandler.cpp",
    "        else if (rc == MQTTSN_RC_REJECTED_INVALID_TOPIC_ID)\n        {\n            WRITELOG(",
    "        else if (rc == MQTTSN_RC_REJECTED_INVALID_TOPIC_ID)\n        {\n            client->eraseWaitedPubTopicId(msgId);\n            WRITELOG(")],
    "a client that rejects a message of the broker with an id that one of its own unacknowledged messages has, too",
    "the PUBACK for the client's own message is dropped", r'''
    d.sendSN("0a 0c 22 41 42 0005 010203");
    same("PUBACK invalid", d.sendSN("07 0d 0003 0005 02"), "client: broker:");
    same("PUBACK", d.sendMQ("40020005"), "client: 070d4142000500 broker:");
''')

bug("sleep-one-per-ping", "H07", [(G + "MQTTSNGWConnectionHandler.cpp",
    "    while ((msg = client->getClientSleepPacket()) != nullptr)\n    {",
    "    if ((msg = client->getClientSleepPacket()) != nullptr)\n    {")],
    "a sleeping client with two buffered messages that wakes up",
    "only the first one is delivered, then the client goes back to sleep", r'''
    d.client->updateStatus(Cstat_Asleep);
    d.sendMQ("30 05 00024142 31");
    d.sendMQ("30 05 00024142 32");
    string s = d.sendSN("02 16") + d.sendSN("0216");
    same("first", s.find("080c024142000031") != string::npos ? "delivered" : s, "delivered");
    same("PINGREQ", d.all().find("c000") != string::npos ? "answered" : d.all(), "answered");
''')

bug("willmsgupd-reply", "H08", [(G + "MQTTSNGWConnectionHandler.cpp",
    "    respMsg->setWILLMSGRESP(MQTTSN_RC_NOT_SUPPORTED);\n",
    "    respMsg->setWILLTOPICRESP(MQTTSN_RC_NOT_SUPPORTED);\n")],
    "a WILLMSGUPD", "the client gets WILLTOPICRESP and keeps waiting for WILLMSGRESP", r'''
    same("WILLMSGUPD", d.sendSN("04 1c 41 42"), "client: 031d03 broker:");
''')

bug("regack-awake", "H09", [(G + "MQTTSNGWPublishHandler.cpp",
    "    uint8_t rc;\n    if (client->isActive() || client->isAwake())\n",
    "    uint8_t rc;\n    if (client->isActive())\n")],
    "a client that wakes up and gets a buffered message on a new topic",
    "its REGACK is ignored, the message is never delivered", r'''
    d.client->setSessionStatus(false);
    d.client->updateStatus(Cstat_Awake);
    same("PUBLISH", d.sendMQ("30 06 0003612f62 31"), "client: 090a00010001612f62 broker:");
    same("REGACK", d.sendSN("07 0b 0001 0001 00"), "client: 080c000001000031 broker:");
''')

bug("awake-pingresp", "H10", [(G + "MQTTSNGWClient.cpp",
    "        case MQTTSN_PINGRESP:\n            _status = Cstat_Asleep;\n            break;\n", "")],
    "a client that was awake gets PINGRESP and a message for it comes after that",
    "the gateway takes the client for awake and sends messages to it while it sleeps", r'''
    d.client->updateStatus(Cstat_Awake);
    d.sendMQ("d000");
    same("PUBLISH", d.sendMQ("30 05 00024142 31"), "client: broker:");
''')

bug("asleep-connect", "H10", [(G + "MQTTSNGWClient.cpp",
    "        case MQTTSN_CONNECT:\n            _status = Cstat_Active;\n            break;\n        case MQTTSN_DISCONNECT:",
    "        case MQTTSN_CONNECT:\n            _status = (_status == Cstat_Awake ? Cstat_Active : _status);\n            break;\n        case MQTTSN_DISCONNECT:")],
    "a sleeping client that goes back to active by CONNECT",
    "it gets CONNACK but stays asleep for the gateway, which buffers its messages", r'''
    d.client->updateStatus(Cstat_Asleep);
    same("CONNECT", d.sendSN("09 04 04 01 000a 636c31"), "client: 030500 broker:");
    same("PUBLISH", d.sendMQ("30 05 00024142 31"), "client: 080c024142000031 broker:");
''')

bug("suback-use-after-erase", "M01", [(G + "MQTTGWSubscribeHandler.cpp",
    "        MQTTSNPacket* snPacket = new MQTTSNPacket();\n\n        if (rc == 0x80)",
    "        MQTTSNPacket* snPacket = new MQTTSNPacket();\n        client->eraseWaitedSubTopicId(msgId);\n\n        if (rc == 0x80)"),
    (G + "MQTTGWSubscribeHandler.cpp", "        _gateway->getClientSendQue()->post(evt);\n        client->eraseWaitedSubTopicId(msgId);\n", "        _gateway->getClientSendQue()->post(evt);\n")],
    "any SUBACK; shows when the freed element is used again", "the element of the table is read after it was freed", r'''
    d.sendSN("07 12 02 0008 4142");
    same("SUBACK", d.sendMQ("9003000800"), "client: 0813004142000800 broker:");
''', asan=1)

bug("publish-log-name", "M01", [(G + "MQTTGWPublishHandler.cpp",
    "                WRITELOG(\"%sMQTTGWPublishHandler Invalid Topic. PUBLISH message is discarded.%s\\n\",\n                ERRMSG_HEADER, ERRMSG_FOOTER);",
    "                char name[256];\n                memcpy(name, pub.topic, pub.topiclen);\n                name[pub.topiclen] = 0;\n                WRITELOG(\"%sMQTTGWPublishHandler Invalid Topic %s. PUBLISH message is discarded.%s\\n\",\n                ERRMSG_HEADER, name, ERRMSG_FOOTER);")],
    "a message on an unknown topic whose name has more than 255 bytes, for a client with a clean session",
    "stack overflow", r'''
    d.client->setSessionStatus(true);
    string p = "30 b102 012c";
    for (int i = 0; i < 303; i++) p += "61";
    same("PUBLISH", d.sendMQ(p.c_str()), "client: broker:");
''', asan=1)

bug("publish-unknown-leak", "O01", [(G + "MQTTGWPublishHandler.cpp",
    "                delete snPacket;\n                return;\n            }\n\n            if (topic == nullptr)",
    "                return;\n            }\n\n            if (topic == nullptr)")],
    "messages on topics that a client with a clean session never subscribed to",
    "a packet is leaked for each of them", r'''
    d.client->setSessionStatus(true);
    same("PUBLISH", d.sendMQ("30 06 0003612f62 31"), "client: broker:");
''', asan=1, leaks=1)

bug("event-address-leak", "O01", [(G + "MQTTSNGWConnectionHandler.cpp",
    "        client->deleteFirstClientSleepPacket(); // pop the que to delete element.\n",
    "        client->deleteFirstClientSleepPacket(); // pop the que to delete element.\n        if (!client->isSleep())\n        {\n            continue;\n        }\n")],
    "a client that is awake when its buffered messages are sent", "the messages are neither sent nor freed", r'''
    d.client->updateStatus(Cstat_Asleep);
    d.sendMQ("30 05 00024142 31");
    d.client->updateStatus(Cstat_Awake);
    d.sendSN("02 16");
    same("PINGREQ", d.all(), "client: 080c024142000031 broker:");
''')

bug("idmap-erase-end", "H06", [(G + "MQTTSNGWTopic.cpp",
    "            if (p->_next == nullptr)\n            {\n                _end = p->_prev;\n            }\n            else\n            {\n                p->_next->_prev = p->_prev;\n            }\n            delete p;\n            _cnt--;",
    "            if (p->_next != nullptr)\n            {\n                p->_next->_prev = p->_prev;\n            }\n            delete p;\n            _cnt--;")],
    "two unacknowledged PUBLISHes, the second one acknowledged first, and a third one",
    "the awaited acknowledgement of the third one is linked to a freed element: its PUBACK is dropped", r'''
    d.sendSN("09 0c 22 41 41 0005 0102");
    d.sendSN("09 0c 22 42 42 0006 0102");
    same("PUBACK", d.sendMQ("40020006"), "client: 070d4242000600 broker:");
    d.sendSN("09 0c 22 43 43 0007 0102");
    same("PUBACK", d.sendMQ("40020007"), "client: 070d4343000700 broker:");
''')

bug("idmap-same-id", "H06", [(G + "MQTTSNGWTopic.cpp",
    "    if (getElement(msgId))\n    {\n        erase(msgId);\n    }\n\n", "")],
    "a message id used again for another topic although its first PUBACK never came",
    "the PUBACK carries the topic id of the older message", r'''
    d.sendSN("09 0c 22 41 41 0005 0102");
    d.sendSN("09 0c 22 42 42 0005 0102");
    same("PUBACK", d.sendMQ("40020005"), "client: 070d4242000500 broker:");
''')

bug("regack-any", "H09", [(G + "MQTTSNGWClient.cpp",
    "        if (p->_msgId == REGACKMsgId)\n        {\n            return p->_packet;", "        if (p->_msgId >= REGACKMsgId)\n        {\n            return p->_packet;")],
    "a second REGACK for a message id whose PUBLISH was already delivered, while another one waits",
    "the PUBLISH on the other topic is delivered before its topic was accepted, and once more later", r'''
    d.client->setSessionStatus(false);
    d.sendMQ("30 06 0003612f62 31");
    d.sendMQ("30 06 0003612f63 32");
    same("REGACK", d.sendSN("07 0b 0001 0001 00"), "client: 080c000001000031 broker:");
    same("REGACK again", d.sendSN("07 0b 0001 0001 00"), "client: broker:");
''')

bug("forwarder-roaming", "R01", [(G + "MQTTSNGWClientRecvTask.cpp",
    "                        fwd->addClient(client, &nodeId);",
    "                        if (client->getForwarder() == nullptr)\n                        {\n                            fwd->addClient(client, &nodeId);\n                        }")],
    "a client that moves from one forwarder to another, or whose forwarder gives it another node id",
    "the client's CONNECT is accepted but everything for it goes to the forwarder it left", r"""
    Udp f1, f2;
    MQTTSNString n1 = MQTTSNString_initializer, n2 = MQTTSNString_initializer;
    n1.cstring = strdup("f1");
    n2.cstring = strdup("f2");
    Forwarder* fw1 = d.gw->getAdapterManager()->getForwarderList()->addForwarder(d.address(f1.port), &n1);
    Forwarder* fw2 = d.gw->getAdapterManager()->getForwarderList()->addForwarder(d.address(f2.port), &n2);
    d.start(d.crecv);
    d.start(d.csend);
    f1.send("06 fe 00 aaaaaa 09 04 04 01 000a 636c37", d.port.port);
    same("CONNECT by f1", d.event(), "client cl7 09040401000a636c37");
    f2.send("05 fe 00 bbbb 09 04 04 01 000a 636c37", d.port.port);
    same("CONNECT by f2", d.event(), "client cl7 09040401000a636c37");
    MQTTSNString id = MQTTSNString_initializer;
    id.cstring = strdup("cl7");
    d.queueSN("030500", d.gw->getClientList()->getClient(&id));
    same("CONNACK by f2", f2.recv(), "05fe00bbbb030500");
""", tasks=True)

bug("address-change", "R01", [(G + "MQTTSNGWClientRecvTask.cpp",
    "                        if (_gateway->getGWParams()->clientAuthentication == false)",
    "                        if (_gateway->getGWParams()->clientAuthentication == false && client->isDisconnect())")],
    "a client that is still active at the gateway connects again from another address",
    "everything for the client keeps going to its old address, and its messages are those of an unknown client", r"""
    Udp a, b;
    Client* c = d.clientAt("cl5", a.port);
    d.start(d.crecv);
    d.start(d.csend);
    b.send("09 04 04 01 000a 636c35", d.port.port);
    same("CONNECT", d.event(), "client cl5 09040401000a636c35");
    d.queueSN("030500", c);
    same("CONNACK", b.recv(), "030500");
    b.send("0216", d.port.port);
    same("PINGREQ", d.event(), "client cl5 0216");
""", tasks=True)

bug("encapsulated-nodeid", "R02", [(G + "MQTTSNGWEncapsulatedPacket.cpp",
    "    buf[2] = _ctrl;\n    memcpy(buf + 3, _id._nodeId, _id._len);",
    "    buf[2] = _ctrl;\n    memset(buf + 3, 0, _id._len);\n    strncpy((char*) buf + 3, (const char*) _id._nodeId, _id._len);")],
    "a forwarded client whose node id contains a zero byte",
    "the forwarder cannot deliver the packets for the client, the rest of the node id is zero", r"""
    Udp f;
    MQTTSNString n = MQTTSNString_initializer;
    n.cstring = strdup("f1");
    d.gw->getAdapterManager()->getForwarderList()->addForwarder(d.address(f.port), &n);
    d.start(d.crecv);
    d.start(d.csend);
    f.send("07 fe 00 0a000b0c 09 04 04 01 000a 636c37", d.port.port);
    same("CONNECT", d.event(), "client cl7 09040401000a636c37");
    MQTTSNString id = MQTTSNString_initializer;
    id.cstring = strdup("cl7");
    d.queueSN("030500", d.gw->getClientList()->getClient(&id));
    same("CONNACK", f.recv(), "07fe000a000b0c030500");
""", tasks=True)

bug("reply-to-last-sender", "R02", [(G + "MQTTSNGWClientSendTask.cpp",
    "                rc = packet->unicast(_sensorNetwork, ev->getSensorNetAddress());",
    "                rc = packet->unicast(_sensorNetwork, _sensorNetwork->getSenderAddress());")],
    "a datagram of another client arrives before a reply to an unregistered sender is sent",
    "the reply goes to whoever sent the last datagram", r"""
    Udp a, b;
    Client* c = d.clientAt("cl5", b.port);
    d.start(d.crecv);
    b.send("0216", d.port.port);
    same("PINGREQ", d.event(), "client cl5 0216");
    Event* e = new Event();
    e->setClientSendEvent(d.address(a.port), d.sn("0218"));
    d.gw->getClientSendQue()->post(e);
    d.start(d.csend);
    same("reply", a.recv(), "0218");
    same("the other one", b.recv(300), "nothing");
""", tasks=True)

bug("connect-keeps-connection", "R03", [(G + "MQTTSNGWBrokerSendTask.cpp",
    "            if (packet->getType() == CONNECT && client->getNetwork()->isValid())",
    "            if (packet->getType() == CONNECT && client->isDisconnect() && client->getNetwork()->isValid())")],
    "a client connects again while its connection to the broker is open",
    "the second CONNECT is sent on the open connection, a protocol violation that makes the broker drop it", r"""
    Udp a;
    Client* c = d.clientAt("cl5", a.port);
    d.start(d.bsend);
    d.queueMQ("100f00044d5154540402000a0003636c31", c);
    d.broker.accept();
    same("CONNECT", d.broker.recv(0), "100f00044d5154540402000a0003636c31");
    c->updateStatus(Cstat_Active);
    d.queueMQ("100f00044d5154540402000a0003636c31", c);
    same("a new connection", d.broker.accept() ? "yes" : "no", "yes");
    same("the old one", d.broker.recv(0), "end");
""", tasks=True)

bug("remaining-length-128", "R03", [(G + "MQTTGWPacket.cpp",
    "        if (length > 0)\n            d |= 0x80;\n        buf[rc++] = d;\n    }\n    while (length > 0);",
    "        if (length > 1)\n            d |= 0x80;\n        buf[rc++] = d;\n    }\n    while (length > 1);")],
    "a packet with a remaining length from 128 to 255",
    "the remaining length is cut off after its first byte, the broker sees a shorter packet", r"""
    Udp a;
    Client* c = d.clientAt("cl5", a.port);
    d.connect(c);
    d.start(d.bsend);
    string p = "308001 0001 41", q;
    for (int i = 0; i < 125; i++) p += "61";
    d.queueMQ(p.c_str(), c);
    for (char x : p) if (x != ' ') q += x;
    same("PUBLISH", d.broker.recv(0), q);
""", tasks=True)

bug("select-highest-socket", "R04", [(G + "MQTTSNGWBrokerRecvTask.cpp",
    "                if (sockfd > maxSock)\n                {\n                    maxSock = sockfd;\n                }",
    "                maxSock = sockfd;")],
    "two clients, of which the one created first has the connection that was opened last",
    "nothing the broker sends to that client is ever read", r"""
    Udp a, b;
    Client* c1 = d.clientAt("cl5", a.port);
    Client* c2 = d.clientAt("cl6", b.port);
    d.connect(c2);
    d.connect(c1);
    d.start(d.brecv);
    d.broker.send(0, "d000");
    same("for cl6", d.event(), "broker cl6 d000");
    d.broker.send(1, "d000");
    same("for cl5", d.event(), "broker cl5 d000");
""", tasks=True)

bug("broker-error-asleep", "R04", [(G + "MQTTSNGWBrokerRecvTask.cpp",
    "if ((rc == -1 || rc == -2) && (client->isActive() || client->isSleep() || client->isAwake()))",
    "if ((rc == -1 || rc == -2) && (client->isActive() || client->isAwake()))")],
    "the broker's connection of a sleeping client breaks in the middle of a packet",
    "the connection is left open and read again and again, and the client is believed to be asleep", r"""
    Udp a;
    Client* c = d.clientAt("cl5", a.port);
    c->updateStatus(Cstat_Asleep);
    d.connect(c);
    d.start(d.brecv);
    d.broker.send(0, "30ffffffffff");
    for (int i = 0; i < 150 && !c->isDisconnect(); i++) usleep(10000);
    same("client", c->isDisconnect() ? "disconnected" : "not", "disconnected");
    same("connection", c->getNetwork()->isValid() ? "open" : "closed", "closed");
""", tasks=True)

SLOW = r"""
#include <dlfcn.h>
/* a thread that has just given up a lock loses the processor */
static bool slow = false;
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int rc = real(m);
    if (slow) usleep(100000);
    return rc;
}
"""

bug("full-queue-locked", "T01", [(G + "MQTTSNGateway.cpp",
    "        else\n        {\n            delete ev;\n        }\n        _mutex.unlock();",
    "        else\n        {\n            delete ev;\n            return;\n        }\n        _mutex.unlock();")],
    "more datagrams than the packet event queue can hold before the packet handling task takes the first",
    "the queue stays locked: all tasks wait for it forever", r"""
    alarm(20);
    EventQue q;
    q.setMaxSize(2);
    for (int i = 0; i < 3; i++) q.post(new Event());
    char b[16];
    sprintf(b, "%d", q.size());
    same("events in the queue", b, "2");
""", tasks=True)

bug("client-pool-order", "T01", [(G + "MQTTSNGWClientList.cpp",
    "    /* acquire a free client */\n    client = _clientsPool->getClient();\n\n    if (!client)",
    "    /* acquire a free client */\n    _mutex.lock();\n    client = _clientsPool->getClient();\n\n    if (!client)"),
    (G + "MQTTSNGWClientList.cpp",
     "        ERRMSG_HEADER, ERRMSG_FOOTER);\n        return nullptr;\n    }\n\n    client->disconnected();",
     "        ERRMSG_HEADER, ERRMSG_FOOTER);\n        return nullptr;\n    }\n    _mutex.unlock();\n\n    client->disconnected();")],
    "a CONNECT of a new client when MaxNumberOfClients clients exist", "the client list stays locked, every task that looks for a client waits forever", r"""
    alarm(20);
    Udp a;
    ClientList* l = d.gw->getClientList();
    int n = 0;
    char b[16];
    MQTTSNString id = MQTTSNString_initializer;
    for (id.cstring = b; n < 200; n++)
    {
        sprintf(b, "c%d", n);
        if (!l->createClient(d.address(10000 + n), &id, TRANSPEARENT_TYPE)) break;
    }
    sprintf(b, "c%d", 0);
    same("the list can be searched", l->getClient(&id) || n == 0 ? "yes" : "no", "yes");
""", tasks=True)

bug("timedwait-races", "T02", [(G + "MQTTSNGateway.cpp",
    "    _mutex.lock();\n\n    if (_que.size() == 0)\n    {\n        ev = new Event();",
    "    _mutex.lock();\n    bool none = _que.size() == 0;\n    _mutex.unlock();\n\n    if (none)\n    {\n        ev = new Event();"),
    (G + "MQTTSNGateway.cpp",
     "    else\n    {\n        ev = _que.front();\n        _que.pop();\n    }\n    _mutex.unlock();\n    return ev;",
     "    else\n    {\n        ev = _que.front();\n        _que.pop();\n    }\n    return ev;")],
    "a second thread that takes the last event between the look and the taking", "one of them gets a null event", r"""
    EventQue q;
    q.post(new Event());
    Event* got[2] = { 0, 0 };
    slow = true;
    std::thread t([&] { got[1] = q.timedwait(1); });
    got[0] = q.timedwait(1);
    t.join();
    slow = false;
    same("both got an event", got[0] && got[1] ? "yes" : "no", "yes");
""", tasks=True, pre=SLOW)

bug("forwarder-lookup-races", "T02", [(G + "MQTTSNGWForwarder.cpp",
    "    WirelessNodeId* nodeId = nullptr;\n    _mutex.lock();\n    ForwarderElement* p = _headClient;",
    "    WirelessNodeId* nodeId = nullptr;\n    _mutex.lock();\n    ForwarderElement* p = _headClient;\n    _mutex.unlock();"),
    (G + "MQTTSNGWForwarder.cpp",
     "            p = p->_next;\n        }\n    }\n    _mutex.unlock();\n    return nodeId;",
     "            p = p->_next;\n        }\n    }\n    return nodeId;")],
    "a client that leaves its forwarder while the sending task looks for its node id", "the sending task reads memory that was freed", r"""
    MQTTSNString n = MQTTSNString_initializer;
    n.cstring = (char*) "fwd";
    Udp a;
    Forwarder* f = new Forwarder(d.address(a.port), &n);
    WirelessNodeId w;
    w.setId((uint8_t*) "abc", 3);
    f->addClient(d.client, &w);
    slow = true;
    WirelessNodeId* got = nullptr;
    std::thread t([&] { got = f->getWirelessNodeId(d.client); });
    usleep(50000);
    f->eraseClient(d.client);
    t.join();
    slow = false;
    same("done", "yes", "yes");
""", tasks=True, pre=SLOW, asan=True)

bug("exception-not-counted", "T03", [(G + "linux/Threading.h",
    "      run(); \\\n    } \\", "      run(); \\\n      theMultiTaskProcess->threadStopped(); \\\n    } \\"),
    (G + "linux/Threading.h",
     "    } \\\n    theMultiTaskProcess->threadStopped(); \\\n}", "    } \\\n}")],
    "a task that ends with an exception, for example of its socket", "the gateway waits for that task forever, it never ends", r"""
    struct Failing : Thread
    {
        MAGIC_WORD_FOR_THREAD;
        Failing() { setTaskName("Failing"); }
        void run() { throw Exception("it fails", 0); }
    } t;
    d.gw->_threadCount = 0;
    d.gw->_stopCount = 0;
    d.gw->attach(&t);
    t.EXECRUN();
    same("signal", theSignaled == SIGINT ? "seen" : "not", "seen");
    alarm(10);
    d.gw->waitStop();
    same("end", "yes", "yes");
""", tasks=True)

bug("broker-receiver-stops-late", "T03", [(G + "MQTTSNGWBrokerRecvTask.cpp",
    "        if (CHK_SIGINT)", "        if (CHK_SIGINT && _gateway->getClientList()->getClientCount() == 0)")],
    "SIGINT while clients exist", "the task that receives from the broker goes on, the gateway never ends", r"""
    Udp a;
    d.clientAt("cl5", a.port);
    theSignaled = SIGINT;
    alarm(10);
    d.brecv->run();
    same("end", "yes", "yes");
""", tasks=True)

bug("waitstop-counts", "T03", [(G + "MQTTSNGWProcess.cpp",
    "    while (_stopCount < _threadCount)\n    {\n        sleep(1);\n    }",
    "    int running = _threadCount - _stopCount;\n    while (running-- > 0)\n    {\n        sleep(1);\n    }")],
    "a task that needs more seconds to end than there are tasks", "the process ends, and destroys the gateway, under a running task", r"""
    d.gw->_threadCount = 1;
    d.gw->_stopCount = 0;
    bool ended = false;
    std::thread t([&] { sleep(3); ended = true; d.gw->threadStopped(); });
    d.gw->waitStop();
    same("the task has ended", ended ? "yes" : "no", "yes");
    t.join();
""", tasks=True)

FAKE = r'''#include "Network.h"
/* OpenSSL, replaced: what it answers is set by the demonstration */
static long verified = 0;
static string cn, wire;
static std::vector<int> chunks;          /* what each SSL_write accepts */
static int ssls, ctxs, sslerr;
static string freed;
extern "C" {
const SSL_METHOD* TLS_client_method(void) { return 0; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { ctxs++; return (SSL_CTX*) malloc(1); }
void SSL_CTX_free(SSL_CTX*) { ctxs--; freed += "ctx "; }
int SSL_CTX_load_verify_locations(SSL_CTX*, const char*, const char*) { return 1; }
SSL* SSL_new(SSL_CTX*) { ssls++; return (SSL*) malloc(1); }
void SSL_free(SSL*) { ssls--; freed += "ssl "; }
int SSL_set_fd(SSL*, int) { return 1; }
int SSL_set_session(SSL*, SSL_SESSION*) { return 1; }
int SSL_connect(SSL*) { return 1; }
int SSL_shutdown(SSL*) { return 1; }
long SSL_get_verify_result(const SSL*) { return verified; }
X509* SSL_get1_peer_certificate(const SSL*) { return (X509*) malloc(1); }
void X509_free(X509*) { }
X509_NAME* X509_get_subject_name(const X509*) { return 0; }
int X509_NAME_get_text_by_NID(const X509_NAME*, int, char* b, int n) { snprintf(b, n, "%s", cn.c_str()); return cn.size(); }
SSL_SESSION* SSL_get1_session(SSL*) { return (SSL_SESSION*) malloc(1); }
void SSL_SESSION_free(SSL_SESSION*) { freed += "session "; }
int SSL_pending(const SSL*) { return 0; }
int SSL_get_error(const SSL*, int rc) { return rc > 0 ? SSL_ERROR_NONE : sslerr; }
int SSL_write(SSL*, const void* b, int n)
{
    int k = n;
    if (!chunks.empty()) { k = chunks[0] < n ? chunks[0] : n; chunks.erase(chunks.begin()); }
    if (k > 0) wire.append((const char*) b, k);
    return k;
}
int SSL_read(SSL*, void*, int) { return -1; }
}
static string num(int n) { return std::to_string(n); }
static string yes(bool b) { return b ? "yes" : "no"; }
static bool tls(Network& n, int port, const char* host = "127.0.0.1") { n.setSecure(true); return n.connect(host, num(port).c_str(), 0, 0, 0, 0); }
'''
NET = G + "linux/Network.cpp"

bug("tls-third-write", "N01", [(NET, "\t\t\t\t\t\tlength -= r;\n\t\t\t\t\t\tbpos += r;\n", "\t\t\t\t\t\tlength -= r;\n\t\t\t\t\t\tbpos = r;\n")],
    "a packet that OpenSSL takes in three parts", "the broker gets part of the packet twice and its end never", r"""
    Broker b;
    Network n;
    cn = "127.0.0.1";
    same("connected", yes(tls(n, b.port)), "yes");
    chunks.push_back(3);
    chunks.push_back(3);
    same("result", num(n.send((const uint8_t*) "abcdefghij", 10)), "10");
    same("what the broker gets", wire, "abcdefghij");
""", tasks=True, pre=FAKE)

bug("broken-pipe", "N01", [(NET, "\treturn ::send(_sockfd, buf, length, MSG_NOSIGNAL);\n", "\treturn ::write(_sockfd, buf, length);\n")],
    "a broker that closes the connection just before the gateway sends", "SIGPIPE ends the gateway", r"""
    Broker b;
    Network n;
    same("connected", yes(n.connect("127.0.0.1", num(b.port).c_str())), "yes");
    b.accept();
    close(b.conn[0]);
    usleep(100000);
    n.send((const uint8_t*) "abc", 3);
    usleep(100000);
    same("result of sending to nobody", num(n.send((const uint8_t*) "abc", 3)), "-1");
""", tasks=True, pre=FAKE)

bug("expired-certificate", "N01", [(NET, "if ( (result = SSL_get_verify_result(_ssl)) != X509_V_OK)", "result = SSL_get_verify_result(_ssl);\n\t\tif (result == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT || result == X509_V_ERR_UNABLE_TO_GET_ISSUER_CERT_LOCALLY)")],
    "a broker whose certificate has expired", "the connection is used all the same", r"""
    Broker b;
    Network n;
    cn = "127.0.0.1";
    verified = X509_V_ERR_CERT_HAS_EXPIRED;
    same("connected", yes(tls(n, b.port)), "no");
    verified = X509_V_OK;
    same("connected with a valid certificate", yes(tls(n, b.port)), "yes");
""", tasks=True, pre=FAKE)

bug("name-begins-alike", "N01", [(NET, "\t\tif ( strcmp(host, pos))", "\t\tif ( strncmp(host, pos, strlen(host)))")],
    "a certificate whose common name only begins with the host's name", "the certificate of another host is accepted", r"""
    Broker b;
    Network n;
    cn = "127.0.0.10";
    same("connected", yes(tls(n, b.port)), "no");
    cn = "127.0.0.1";
    same("connected to the right one", yes(tls(n, b.port)), "yes");
""", tasks=True, pre=FAKE)

bug("shared-context-freed", "N01", [(NET, "\t\t\tSSL_shutdown(_ssl);\n\t\t\tSSL_free(_ssl);\n\t\t\t_numOfInstance--;\n\t\t\t_ssl = 0;\n\t\t\t_sslValid = false;\n\t\t\t_busy = false;\n\t\t}\n",
    "\t\t\tSSL_shutdown(_ssl);\n\t\t\tSSL_free(_ssl);\n\t\t\t_ssl = 0;\n\t\t\t_sslValid = false;\n\t\t\t_busy = false;\n\t\t}\n\t\t_numOfInstance--;\n")],
    "a client whose TLS connection failed, or was closed before, is closed while one other client is connected", "the TLS context of the other client is freed under it", r"""
    Broker b;
    Network one, two;
    cn = "127.0.0.1";
    same("connected", yes(tls(one, b.port)), "yes");
    cn = "other";
    same("the second is refused", yes(tls(two, b.port)), "no");
    freed = "";
    two.close();
    same("freed while one is connected", freed, "");
""", tasks=True, pre=FAKE)

# ---------------------------------------------------------------- configuration
DIR = r"""#include <sys/stat.h>
/* a scratch directory (the working directory), and files in it */
static void file(const char* name, const string& text)
{
    FILE* f = fopen(name, "w");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}
static string param(const string& conf, const char* name)
{
    file("gateway.conf", conf);
    Process p;
    char v[200];
    memset(v, 0, sizeof(v));
    int rc = p.getParam(name, v);
    return rc == 0 ? "[" + string(v) + "]" : "none";
}
/* a gateway that has read its configuration */
static Gateway* start(const string& conf)
{
    file("gateway.conf", "GatewayID=1\nGatewayName=gw\nShearedMemory=NO\nGatewayPortNo=10123\nMulticastIP=225.1.1.1\nMulticastPortNo=10124\nMulticastTTL=1\n" + conf);
    static char* argv[] = { (char*) "gateway", 0 };
    Gateway* g = new Gateway();
    optind = 1;
    g->initialize(1, argv);
    return g;
}
static string describe(Gateway* g)
{
    string s;
    for (Client* c = g->getClientList()->getClient(0); c; c = c->getNextClient())
    {
        s += string(s.empty() ? "" : " ") + c->getClientId() + (c->isQoSm1() ? "/qos-1" : "") + (c->isSecureNetwork() ? "/secure" : "") + (c->isSensorNetStable() ? "" : "/unstable");
    }
    return s;
}
"""

bug("blank-value", "F01", [(G + "MQTTSNGWProcess.cpp", "i >= 0 && isspace(param[i]); i--)", "i > 0 && isspace(param[i]); i--)"),
    (G + "MQTTSNGWProcess.cpp", "                for (i = 0; isspace(param[i]); i++)\n                    ;\n                if (i > 0)\n", "                for (i = 0; param[i + 1] && isspace(param[i]); i++)\n                    ;\n                if (i > 0)\n")],
    "a parameter whose value is empty, or one character", "an empty value becomes a line end", r"""
    same("a value", param("A=b c \n", "A"), "[b c]");
    same("no value", param("A=\nB=1\n", "A"), "[]");
""", tasks=True, pre=DIR)

bug("queue-before-clients", "F01", [(G + "MQTTSNGateway.cpp", "    _params.maxClients = MAX_CLIENTS;\n    if (getParam(\"MaxNumberOfClients\"", "    _params.maxClients = MAX_CLIENTS;\n    _packetEventQue.setMaxSize(_params.maxInflightMsgs * _params.maxClients);\n    if (getParam(\"MaxNumberOfClients\""),
    (G + "MQTTSNGateway.cpp", "    /*  Setup max PacketEventQue size  */\n    _packetEventQue.setMaxSize(_params.maxInflightMsgs * _params.maxClients);\n", "")],
    "MaxNumberOfClients other than its default", "the limit of the packet queue is the one of the default number of clients", r"""
    Gateway* g = start("MaxNumberOfClients=3\nMaxInflightMsgs=2\n");
    for (int i = 0; i < 20; i++) g->getPacketEventQue()->post(new Event());
    char b[16];
    sprintf(b, "%d", g->getPacketEventQue()->size());
    same("packets in the queue", b, "6");
""", tasks=True, pre=DIR)

bug("qosm1-after-clients", "F01", [(G + "MQTTSNGateway.cpp",
    "    /*  Initialize adapters */\n    _adapterManager->initialize(_params.gatewayName, _params.aggregatingGw, _params.forwarder, _params.qosMinus1);\n\n    /*  Setup ClientList and Predefined topics  */\n    _clientList->initialize(_params.aggregatingGw);\n",
    "    /*  Setup ClientList and Predefined topics  */\n    _clientList->initialize(_params.aggregatingGw);\n\n    /*  Initialize adapters */\n    _adapterManager->initialize(_params.gatewayName, _params.aggregatingGw, _params.forwarder, _params.qosMinus1);\n")],
    "ClientAuthentication and QoS-1 together", "QoS -1 clients of the list are ordinary clients, their messages are not forwarded by the proxy", r"""
    file("clients.conf", "one,127.0.0.1:1001\ntwo,127.0.0.1:1002,QoS-1\n");
    Gateway* g = start("ClientAuthentication=YES\nQoS-1=YES\nClientsList=clients.conf\n");
    SensorNetAddress a;
    string s = "127.0.0.1:1002";
    a.setAddress(&s);
    same("the QoS -1 client is one", g->getClientList()->getClient(&a)->isQoSm1() ? "yes" : "no", "yes");
""", tasks=True, pre=DIR)

bug("topics-before-clients", "F01", [(G + "MQTTSNGWClientList.cpp",
    "    if (_gateway->getGWParams()->clientAuthentication)\n    {\n        int type",
    "    if (_gateway->getGWParams()->predefinedTopic)\n    {\n        setPredefinedTopics(aggregate);\n    }\n\n    if (_gateway->getGWParams()->clientAuthentication)\n    {\n        int type"),
    (G + "MQTTSNGWClientList.cpp", "        setClientList(type);\n        _authorize = true;\n    }\n\n    if (_gateway->getGWParams()->predefinedTopic)\n    {\n        setPredefinedTopics(aggregate);\n    }\n", "        setClientList(type);\n        _authorize = true;\n    }\n")],
    "ClientAuthentication and PredefinedTopic together", "a predefined topic makes an unlisted client known, or one that is not the listed client", r"""
    file("clients.conf", "one,127.0.0.1:1001\n");
    file("topics.conf", "one,a/b,5\nother,a/c,6\n");
    Gateway* g = start("ClientAuthentication=YES\nPredefinedTopic=YES\nClientsList=clients.conf\nPredefinedTopicList=topics.conf\n");
    same("the clients", describe(g), "one");
""", tasks=True, pre=DIR)

bug("secure-inherited", "F02", [(G + "MQTTSNGWClientList.cpp", "    bool secure;\n", "    bool secure = false;\n"),
    (G + "MQTTSNGWClientList.cpp", "                secure = (data.find(\"secureConnection\") != string::npos);\n", "                if (data.find(\"secureConnection\") != string::npos)\n                {\n                    secure = true;\n                }\n")],
    "a list with a secure client before one that is not", "all clients after the first secure one connect over TLS", r"""
    file("list", "one,127.0.0.1:2001\ntwo,127.0.0.1:2002,secureConnection\nthree,127.0.0.1:2003\n");
    same("read", d.gw->getClientList()->createList("list", TRANSPEARENT_TYPE) ? "yes" : "no", "yes");
    same("the clients", describe(d.gw), "cl1/unstable one two/secure three");
""", tasks=True, pre=DIR)

bug("bad-line-ends-list", "F02", [(G + "MQTTSNGWClientList.cpp", "                WRITELOG(\"Invalid address     %s\\n\", data.c_str());\n                rc = false;\n            }\n            free(clientId.cstring);\n",
    "                WRITELOG(\"Invalid address     %s\\n\", data.c_str());\n                free(clientId.cstring);\n                break;\n            }\n            free(clientId.cstring);\n")],
    "a line with an invalid address before others", "the clients after it are unknown", r"""
    file("list", "one,127.0.0.1:2001\ntwo,localhost\nthree,127.0.0.1:2003,unstableLine\n");
    same("read", d.gw->getClientList()->createList("list", TRANSPEARENT_TYPE) ? "yes" : "no", "yes");
    same("the clients", describe(d.gw), "cl1/unstable one three/unstable");
""", tasks=True, pre=DIR)

bug("tabs-in-list", "F02", [(G + "MQTTSNGWClientList.cpp", "while ((pos = data.find_first_of(\" \u3000\\t\\n\")) != string::npos)\n            {\n                data.erase(pos, 1);", "while ((pos = data.find_last_of(\" \\n\")) != string::npos)\n            {\n                data.erase(pos, 1);")],
    "a list whose columns are separated by tabs", "ids begin or end with a tab, so that the clients are not found", r"""
    file("list", "one\t,127.0.0.1:2001\ntwo ,\t127.0.0.1:2002\n");
    same("read", d.gw->getClientList()->createList("list", TRANSPEARENT_TYPE) ? "yes" : "no", "yes");
    same("the clients", describe(d.gw), "cl1/unstable one two");
""", tasks=True, pre=DIR)

bug("octal-topic-id", "F02", [(G + "MQTTSNGWClientList.cpp", "uint16_t topicID = stoul(data.substr(pos1 + 1));", "uint16_t topicID = stoul(data.substr(pos1 + 1), nullptr, 0);")],
    "a predefined topic whose number has leading zeros", "the topic has another number", r"""
    file("list", "cl1,a/b,010\n");
    d.gw->getClientList()->readPredefinedList("list", false);
    Topic* t = d.client->getTopics()->_first;
    char b[16];
    sprintf(b, "%d", t ? t->getTopicId() : -1);
    same("the number", b, "10");
""", tasks=True, pre=DIR)

bug("common-topic-prefix", "F02", [(G + "MQTTSNGWClientList.cpp", "    if (strcmp(clientId->cstring, common_topic) == 0)", "    if (strncmp(clientId->cstring, common_topic, strlen(common_topic)) == 0)")],
    "a client whose id begins with '*'", "its predefined topic is one of all clients, it has none itself", r"""
    file("list", "*cl,a/b,10\n*,a/c,11\n");
    d.newClient("*cl", 1005);
    d.gw->getClientList()->readPredefinedList("list", false);
    same("topics of all", d.gw->getTopics()->_first ? *d.gw->getTopics()->_first->getTopicName() : "none", "a/c");
""", tasks=True, pre=DIR)

# ---------------------------------------------------------------- sensor networks
U, U6, XB, LR = [G + "linux/%s/SensorNetwork.cpp" % k for k in ("udp", "udp6", "xbee", "loralink")]
UDPCONF = '"GatewayPortNo=10000\\nMulticastIP=225.1.1.1\\nMulticastPortNo=1884\\nMulticastTTL=1\\n"'
UDP6CONF = '"GatewayIPv6PortNo=10000\\nMulticastIPv6=ff1e:feed:caca:dead::feed\\nMulticastIPv6PortNo=1884\\nMulticastHops=%d\\n"'

bug("udp6-prefix-match", "S01", [(U6, "                    sizeof(this->_IpAddr.sin6_addr.s6_addr)) == 0);", "                    sizeof(_IpAddr.sin6_addr.s6_addr) / sizeof(uint16_t)) == 0);")],
    "two clients in the same /64 network that use the same port", "they are taken for one client", r"""
    SensorNetAddress a, b;
    string s = "[2001:db8::1]:10000", t = "[2001:db8::2]:10000", u = "[2001:db9::2]:10000";
    a.setAddress(&s);
    b.setAddress(&t);
    same("hosts of one network", num(a.isMatch(&b)), "0");
    b.setAddress(&u);
    same("hosts of two networks", num(a.isMatch(&b)), "0");
    b.setAddress(&s);
    same("one host", num(a.isMatch(&b)), "1");
""", net="udp6")

bug("reuse-after-bind", "S01", [(U, "    setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval));\n", ""),
    (U, "    ip_mreq mreq;\n", "    setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval));\n\n    ip_mreq mreq;\n")],
    "another program on the host that uses the multicast port", "the gateway cannot start", r"""
    configure(""" + UDPCONF + r""");
    int other = socket(AF_INET, SOCK_DGRAM, 0), on = 1;
    sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_port = htons(1884);
    setsockopt(other, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
    bind(other, (sockaddr*) &a, sizeof(a));
    SensorNetwork n;
    string r = "started";
    try { n.initialize(); } catch (Exception& e) { r = "failed"; }
    same("the gateway", r, "started");
""", net="udp")

bug("hops-of-loop", "S01", [(U6, "IPV6_MULTICAST_HOPS, &hops, sizeof(hops)) < 0)", "IPV6_MULTICAST_HOPS, (char*) &optval, sizeof(optval)) < 0)")],
    "MulticastHops other than 0", "ADVERTISE and GWINFO never leave the host", r"""
    configure(""" + UDP6CONF % 3 + r""");
    SensorNetwork n;
    n.initialize();
    n.broadcast((const uint8_t*) "abc", 3);
    same("broadcasts", num(sent.size()), "1");
    same("hops", num(sock(sent[0].fd)->ttl), "3");
""", net="udp6")

bug("datagram-of-buffer-size", "S01", [(U, "        rc = recvfrom(_pollFds[1].fd, buf, len, 0, addr);", "        rc = recvfrom(_pollFds[1].fd, buf, (uint8_t) len, 0, addr);")],
    "a multicast datagram while the buffer has a size whose low byte is 0 (1024)", "datagrams that come by multicast (SEARCHGW) are received empty", r"""
    configure(""" + UDPCONF + r""");
    SensorNetwork n;
    n.initialize();
    uint8_t b[1024];
    ready = FIRST + 1;
    same("multicast", num(n.read(b, sizeof(b))), "5");
    ready = FIRST;
    same("unicast", num(n.read(b, sizeof(b))), "5");
""", net="udp", pre=r"""static int ready = 0;
extern "C" int poll(struct pollfd* p, nfds_t n, int)
{
    int k = 0;
    for (nfds_t i = 0; i < n; i++) k += (p[i].revents = p[i].fd == ready ? POLLIN : 0) != 0;
    return k;
}
extern "C" ssize_t recvfrom(int, void* p, size_t n, int, sockaddr* a, socklen_t* l)
{
    memset(a, 0, *l);
    memcpy(p, "12345", n < 5 ? n : 5);
    return n < 5 ? n : 5;
}
""")

XBPRE = r"""
static const char ADDR[] = "00 13 a2 00 40 52 2b aa";
static SensorNetwork* net;
/* sends the packet; the modem reports success of the frame (of another one: other) unless it is silent */
static long sendto_(SensorNetAddress* a, const string& p, bool silent = false, bool other = false)
{
    written.clear();
    input.clear();
    thread t([=] {
        size_t last = 0;
        for (int i = 0; i < 200 && (written.size() == 0 || written.size() != last); i++) { lock_.lock(); last = written.size(); lock_.unlock(); usleep(3000); }
        if (silent) return;
        string c = unframe(written);
        unsigned char id = c.size() > 4 && c.find(' ') == string::npos ? raw(c.substr(2, 2).c_str())[0] : 1;
        give(frame(string("\x8b", 1) + (char) (other ? id - 1 : id) + string(5, '\0')));
        uint8_t b[1024];
        net->read(b, sizeof(b));
    });
    long r = net->unicast((const uint8_t*) p.data(), p.size(), a);
    t.join();
    return r;
}
"""
XBCONF = r"""
    configure("SerialDevice=/dev/none\nBaudrate=9600\nApiMode=2\n");
    net = new SensorNetwork();
    net->initialize();
    SensorNetAddress a;
    a.setAddress((uint8_t*) raw(ADDR).data(), (uint8_t*) "\x12\x34");
"""
bug("xbee-frame-id-plain", "S02", [(XB, "    send(_frameId);\n", "    _serialPort->send(_frameId);\n")],
    "the 17th packet (and the 19th, 125th, 126th of 255)", "the frame id of the frame is not escaped, the modem drops the frame", XBCONF + r"""
    int bad = 0;
    for (int i = 0; i < 20; i++)
    {
        sendto_(&a, "abc");
        bad += unframe(written).find(' ') != string::npos;
    }
    same("frames that are not right", num(bad), "0");
""", net="xbee", pre=XBPRE)

bug("xbee-short-address-sum", "S02", [(XB, "		checksum += addr->_address16[i];\n", "")],
    "a client whose 16-bit network address is known (not 0)", "frames for it have a wrong check byte", XBCONF + r"""
    sendto_(&a, "abc");
    string c = unframe(written);
    same("frame", c.size() > 4 ? c.replace(2, 2, "xx") : c, "10xx0013a20040522baa12340000616263");
""", net="xbee", pre=XBPRE)

bug("xbee-late-report", "S02", [(XB, "    if ( _respCd || _frameId != _respId )\n", "    if ( _respCd )\n")],
    "a report of the modem that is about an earlier frame", "the packet counts as sent although the modem did not say so", XBCONF + r"""
    sendto_(&a, "abc");
    same("own report", num(sendto_(&a, "abc")), "3");
    same("report of the frame before", num(sendto_(&a, "abc", false, true)), "-1");
""", net="xbee", pre=XBPRE)

LRPRE = r"""
static SensorNetwork* net;
static string received(const string& s)
{
    input.clear();
    give(s);
    uint8_t b[1024];
    int n = net->read(b, sizeof(b));
    return n > 0 ? hex(b, n) : "nothing";
}
static long sendto_(SensorNetAddress* a, const string& p, int report)
{
    written.clear();
    input.clear();
    thread t([=] {
        size_t last = 0;
        for (int i = 0; i < 200 && (written.size() == 0 || written.size() != last); i++) { lock_.lock(); last = written.size(); lock_.unlock(); usleep(3000); }
        if (report < 0) return;
        received(frame(string(5, '\0') + (char) report, 1));
    });
    long r = net->unicast((const uint8_t*) p.data(), p.size(), a);
    t.join();
    return r;
}
"""
LRCONF = r"""
    configure("DeviceRxLoRaLink=/dev/none0\nDeviceTxLoRaLink=/dev/none1\nBaudrateLoRaLink=115200\n");
    net = new SensorNetwork();
    net->initialize();
    SensorNetAddress a;
    a.setAddress(7);
"""
bug("lora-escaped-length", "S02", [(LR, "		if ( para->apipos > 0 && byte == ESCAPE )\n", "		if ( para->apipos > 2 && byte == ESCAPE )\n")],
    "a packet of 10, 12, 118 or 119 bytes (its frame's length has to be escaped)", "it is lost", LRCONF + r"""
    for (int n = 8; n < 14; n++)
    {
        string p(n, 'x');
        same(("packet of " + num(n)).c_str(), received(frame(string("\x05\0\x01\0\x02\x40", 6) + p, 1)), hex(p.data(), n));
    }
""", net="loralink", pre=LRPRE)

bug("lora-silent-modem", "S02", [(LR, "    else if ( _respCd != LORALINK_ACK )\n", "    else if ( _respCd == LORALINK_TX_TIMEOUT )\n")],
    "a modem that does not answer", "packets count as sent", LRCONF + r"""
    same("acknowledged", num(sendto_(&a, "abc", 0x80)), "3");
    same("not sent", num(sendto_(&a, "abc", 0x82)), "-1");
    same("no answer", num(sendto_(&a, "abc", -1)), "-1");
""", net="loralink", pre=LRPRE)

CLOCK = r'''
#include <sys/time.h>
static long long now = 1000000999LL;       /* milliseconds */
extern "C" int gettimeofday(struct timeval* t, void*) noexcept
{
    t->tv_sec = now / 1000;
    t->tv_usec = now % 1000 * 1000;
    return 0;
}
static string sent(Gateway* gw)
{
    string s;
    EventQue* q = gw->getPacketEventQue();
    while (q->size() > 0)
    {
        Event* e = q->wait();
        s += string(s.empty() ? "" : " ") + (const char*) e->getClient()->getClientId() + ":" + e->getMQTTSNPacket()->getName();
        delete e;
    }
    return s.empty() ? "nothing" : s;
}
/* the periodic check, some seconds later */
static string later(Gateway* gw, int secs)
{
    now += secs * 1000LL;
    gw->getAdapterManager()->checkConnection();
    return sent(gw);
}
static QoSm1Proxy* proxy(Gateway* gw)
{
    QoSm1Proxy* q = gw->getAdapterManager()->getQoSm1Proxy();
    q->setup("gw_QoS-1", Atype_QoSm1Proxy);
    q->_isActive = true;
    return q;
}
static void connack(Gateway* gw, QoSm1Proxy* q, Client* c)
{
    c->updateStatus(Cstat_Active);
    q->send(Demo::sn("030500"), c);
}
'''
bug("proxy-retries-add-up", "R05", [(G + "MQTTSNGWAdapter.cpp", "            _responseTimer.stop();\n            _retryCnt = 0;\n            resetPingTimer();\n            sendSuspendedPacket();", "            _responseTimer.stop();\n            resetPingTimer();\n            sendSuspendedPacket();")],
    "a broker that was given up after unanswered PINGREQs, and is connected again", "the new session is given up at its first PINGREQ", r"""
    QoSm1Proxy* q = proxy(d.gw);
    Client* c = q->getClient();
    same("first check", later(d.gw, 2), "gw_QoS-1:CONNECT");
    connack(d.gw, q, c);
    same("idle", later(d.gw, 901), "gw_QoS-1:PINGREQ");
    for (int i = 0; i < 3; i++) same("no answer", later(d.gw, 11), "gw_QoS-1:PINGREQ");
    same("given up", later(d.gw, 2), "gw_QoS-1:CONNECT");
    connack(d.gw, q, c);
    same("idle again", later(d.gw, 901), "gw_QoS-1:PINGREQ");
    same("no answer yet", later(d.gw, 2), "nothing");
""", tasks=True, pre=CLOCK)

bug("proxy-connect-storm", "R05", [(G + "MQTTSNGWAdapter.cpp", "        client->connectSended();\n        _responseTimer.start(PROXY_RESPONSE_DURATION * 1000UL);", "        if (client->isDisconnect())\n        {\n            _responseTimer.start(PROXY_RESPONSE_DURATION * 1000UL);\n        }\n        client->connectSended();")],
    "a broker that does not answer the CONNECT of the QoS -1 proxy", "after ten seconds every check queues another CONNECT, which resets the connection that the one before has opened", r"""
    QoSm1Proxy* q = proxy(d.gw);
    same("first check", later(d.gw, 2), "gw_QoS-1:CONNECT");
    same("waiting", later(d.gw, 2), "nothing");
    same("no answer", later(d.gw, 9), "gw_QoS-1:CONNECT");
    same("waiting again", later(d.gw, 2), "nothing");
""", tasks=True, pre=CLOCK)

bug("timer-borrow", "R05", [(G + "linux/Timer.cpp", "		usecs = (curTime.tv_usec - _startTime.tv_usec) / 1000.0;\n", "		usecs = (curTime.tv_usec > _startTime.tv_usec ? curTime.tv_usec - _startTime.tv_usec : _startTime.tv_usec - curTime.tv_usec) / 1000.0;\n")],
    "a timer that is looked at earlier within a second than it was started", "it is up almost a second, or two, too early", r"""
    Timer t;
    t.start(1000);
    now += 2;
    same("after 2 ms", t.isTimeup() ? "up" : "running", "running");
    now += 900;
    same("after 902 ms", t.isTimeup() ? "up" : "running", "running");
    now += 99;
    same("after 1001 ms", t.isTimeup() ? "up" : "running", "up");
""", tasks=True, pre=CLOCK)

bug("proxy-traffic-of-all", "R05", [(G + "MQTTSNGWAdapterManager.cpp", "        newClient = _qosm1Proxy->getAdapterClient(client);\n        _qosm1Proxy->resetPingTimer(secure);", "        newClient = _qosm1Proxy->getAdapterClient(client);\n        _qosm1Proxy->resetPingTimer(newClient == client);")],
    "a QoS -1 client that uses TLS and publishes more often than every 15 minutes", "its session is tested although it is in use, and the PINGREQ of the session without TLS is put off instead, until the broker ends it", r"""
    QoSm1Proxy* q = proxy(d.gw);
    q->Adapter::_isSecure = true;
    MQTTSNString id = MQTTSNString_initializer;
    id.cstring = strdup("m1");
    Client* m = d.gw->getClientList()->createClient(d.address(2011), &id, true, true, QOSM1PROXY_TYPE);
    same("first check", later(d.gw, 2), "gw_QoS-1:CONNECT gw_QoS-1-S:CONNECT");
    connack(d.gw, q, q->getClient());
    connack(d.gw, q, q->getSecureClient());
    same("half the time", later(d.gw, 500), "nothing");
    same("its client", d.gw->getAdapterManager()->getClient(m)->getClientId(), "gw_QoS-1-S");
    same("one in use", later(d.gw, 500), "gw_QoS-1:PINGREQ");
""", tasks=True, pre=CLOCK)

AGG = r'''
/* the gateway of the demo aggregates its clients */
static void aggregate(Demo& d)
{
    d.gw->getAdapterManager()->initialize((char*) "gw", true, false, false);
    d.client->setAggregated();
}
static Client* aggregated(Demo& d, const char* id, int port)
{
    Client* c = d.newClient(id, port, AGGREGATER_TYPE);
    c->updateStatus(Cstat_Active);
    return c;
}
/* a PUBACK of the broker on the session of the aggregater */
static string puback(Demo& d, const char* h)
{
    return d.sendMQ(h, d.gw->getAdapterManager()->getAggregater()->Adapter::getClient());
}
'''
bug("aggregate-id-of-any", "A01", [(G + "MQTTSNGWMessageIdTable.cpp", "        if (p->_clientMsgId == clientMsgId && p->_client == client)\n", "        if (p->_clientMsgId == clientMsgId)\n")],
    "two aggregated clients that have sent messages with the same message id which the broker has not acknowledged yet", "both messages go to the broker under one id; one of the clients never gets its PUBACK", r'''
    aggregate(d);
    Client* c = aggregated(d, "cl2", 2002);
    d.client->getTopics()->add("a", 0);
    c->getTopics()->add("b", 0);
    same("first", d.sendSN("08 0c 20 0001 0005 78"), "client: broker: 3206000161000178");
    same("second", d.sendSN("08 0c 20 0001 0005 79", c), "client: broker: 3206000162000279");
    same("acknowledged", puback(d, "40 02 0002"), "client: 070d0001000500 broker:");
    same("acknowledged, too", puback(d, "40 02 0001"), "client: 070d0001000500 broker:");
''', pre=AGG)

bug("aggregate-oldest-first", "A01", [(G + "MQTTSNGWMessageIdTable.cpp", "        if (_head == nullptr)\n        {\n            _tail = nullptr;\n        }\n        else\n        {\n            _head->_prev = nullptr;\n        }\n", "        if (_tail == elm)\n        {\n            _tail = nullptr;\n        }\n")],
    "three unacknowledged messages of aggregated clients; the broker acknowledges them in order", "the second acknowledgement writes to memory that was freed by the first", r'''
    aggregate(d);
    d.client->getTopics()->add("a", 0);
    d.sendSN("08 0c 20 0001 0005 78");
    d.sendSN("08 0c 20 0001 0006 78");
    d.sendSN("08 0c 20 0001 0007 78");
    same("first", puback(d, "40 02 0001"), "client: 070d0001000500 broker:");
    same("second", puback(d, "40 02 0002"), "client: 070d0001000600 broker:");
    same("third", puback(d, "40 02 0003"), "client: 070d0001000700 broker:");
    same("one more", d.sendSN("08 0c 20 0001 0008 78"), "client: broker: 3206000161000478");
''', pre=AGG, asan=True)

bug("aggregate-sleeper-missed", "A01", [(G + "MQTTGWPublishHandler.cpp", "        Client* devClient = elm->getClient();\n        MQTTGWPacket* msg = new MQTTGWPacket();\n", "        Client* devClient = elm->getClient();\n        if (devClient->isSleep() && elm->getNextClientElement() != nullptr)\n        {\n            elm = elm->getNextClientElement();\n            continue;\n        }\n        MQTTGWPacket* msg = new MQTTGWPacket();\n")],
    "an aggregated client that sleeps when a message arrives for it and for another client that subscribed later", "the message is not stored for the sleeping client", r'''
    aggregate(d);
    Client* c = aggregated(d, "cl2", 2002);
    same("subscribed", d.sendSN("08 12 20 0001 612f62"), "client: broker: 82080001" "0003612f6201");
    same("subscribed, too", d.sendSN("08 12 20 0001 612f62", c), "client: broker: 82080002" "0003612f6201");
    d.client->updateStatus(Cstat_Asleep);
    same("message", puback(d, "30 06 0003612f62 78"), "client: 080c000001000078 broker:");
    same("awake", d.sendSN("05 16 636c31"), "client: 080c000001000078 0217 broker:");
''', pre=AGG)

bug("aggregate-subscriber-link", "A01", [(G + "MQTTSNGWAggregateTopicTable.cpp", "            p = _tail;\n            _tail = elm;\n            elm->_prev = p;\n            p->_next = elm;\n", "            p = _tail;\n            elm->_prev = p->_prev;\n            p->_next = elm;\n            _tail = elm;\n")],
    "two aggregated clients with the same topic filter; the second unsubscribes", "the first client's subscription is lost", r'''
    aggregate(d);
    Client* c = aggregated(d, "cl2", 2002);
    d.sendSN("08 12 20 0001 612f62");
    d.sendSN("08 12 20 0001 612f62", c);
    same("unsubscribed", d.sendSN("08 14 00 0002 612f62", c), "client: 04150002 broker:");
    same("message", puback(d, "30 06 0003612f62 78"), "client: 080c000001000078 broker:");
''', pre=AGG)

bug("aggregate-filter-link", "A01", [(G + "MQTTSNGWAggregateTopicTable.cpp", "            elm->_prev = _tail;\n            _tail->_next = elm;\n            _tail = elm;\n", "            _tail->_next = elm;\n            _tail = elm;\n            elm->_prev = _tail;\n")],
    "two topic filters; the one subscribed later is unsubscribed and another one subscribed", "the subscription is appended to a freed element", r'''
    aggregate(d);
    d.sendSN("08 12 20 0001 612f62");
    d.sendSN("08 12 20 0002 612f63");
    d.sendSN("08 14 00 0003 612f63");
    d.sendSN("08 12 20 0004 612f64");
    same("message", puback(d, "30 06 0003612f64 78"), "client: 080c000003000078 broker:");
''', pre=AGG)

bug("aggregate-clean-stops", "A01", [(G + "MQTTSNAggregateConnectionHandler.cpp", "            while (tp != nullptr)\n            {\n                if (tp->getType() == MQTTSN_TOPIC_TYPE_NORMAL)\n                {\n                    _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(tp, client);\n                }\n                tp = topics->getNextTopic(tp);\n            }\n",
     "            while (tp != nullptr && tp->getType() == MQTTSN_TOPIC_TYPE_NORMAL)\n            {\n                _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(tp, client);\n                tp = topics->getNextTopic(tp);\n            }\n")],
    "an aggregated client with a predefined topic that starts a clean session", "its earlier subscriptions stay: it gets messages it has not subscribed to", r'''
    aggregate(d);
    d.client->getTopics()->add("pre", 1)->_type = MQTTSN_TOPIC_TYPE_PREDEFINED;
    d.sendSN("08 12 20 0001 612f62");
    same("clean session", d.sendSN("09 04 04 01 000a 636c31"), "client: 030500 broker:");
    same("registered to publish", d.sendSN("09 0a 0000 0005 612f62"), "client: 070b0002000500 broker:");
    same("message", puback(d, "30 06 0003612f62 78"), "client: broker:");
''', pre=AGG)

WC = r'''
static string match(const char* filter, const char* name)
{
    Topic t(new string(filter), MQTTSN_TOPIC_TYPE_NORMAL);
    string n(name);
    return t.isMatch(&n) ? "match" : "no match";
}
'''
bug("filter-ends-with-slash", "W01", [(G + "MQTTSNGWTopic.cpp", "                if ((tpos = tloc + 1) > tlen)\n                {\n                    pos = loc + 1;\n", "                if ((tpos = tloc + 1) >= tlen)\n                {\n                    pos = loc + 1;\n")],
    "a filter that ends with '+/', an empty last level", "it matches names with any last level", r'''
    same("a/+/", match("a/+/", "a/b/"), "match");
    same("a/+/", match("a/+/", "a/b/c"), "no match");
    same("+/", match("+/", "a/b"), "no match");
    same("+/+", match("+/+", "a/b"), "match");
    same("a/+", match("a/+", "a/b"), "match");
    same("a/+/c", match("a/+/c", "a/b/c"), "match");
''', pre=WC)

bug("filter-level-begins-alike", "W01", [(G + "MQTTSNGWTopic.cpp", "            else if (subtopic != subtopict)\n            {\n                return false;\n            }\n            else\n", "            else if (topicName->compare(pos, tloc - tpos, subtopict) != 0)\n            {\n                return false;\n            }\n            else\n")],
    "a name one of whose levels begins with the whole level of the filter", "'sensor/on' matches 'sensors/on'", r'''
    same("equal", match("sensor/on", "sensor/on"), "match");
    same("longer", match("sensor/on", "sensors/on"), "no match");
    same("shorter", match("sensors/on", "sensor/on"), "no match");
    same("empty", match("/on", "sensor/on"), "no match");
    same("wildcard", match("sensor/+/x", "sensor/on/x"), "match");
''', pre=WC)

bug("filter-plus-empty-middle", "W01", [(G + "MQTTSNGWTopic.cpp", "            else if (subtopict == wildcards)\n            {\n                if (", "            else if (subtopict == wildcards && (loc > pos || pos == 0))\n            {\n                if (")],
    "a name with an empty level in the middle where the filter has a '+'", "'a/+/b' does not match 'a//b'", r"""
    same("empty level", match("a/+/b", "a//b"), "match");
    same("leading slash", match("+/b", "/b"), "match");
    same("level", match("a/+/b", "a/x/b"), "match");
    same("last", match("a/+", "a/"), "match");
""", pre=WC)

bug("forwarder-third", "R01", [(G + "MQTTSNGWForwarder.cpp", "            if (p->_next == nullptr)\n            {\n                p->_next = fdr;\n                break;", "            if (p->_next == nullptr || p == _head)\n            {\n                p->_next = fdr;\n                break;")],
    "three or more forwarders in the list of clients",
    "each forwarder from the third on replaces the one before, whose clients' messages are discarded", r"""
    Udp f1, f2, f3;
    MQTTSNString n = MQTTSNString_initializer;
    n.cstring = strdup("f");
    ForwarderList* l = d.gw->getAdapterManager()->getForwarderList();
    l->addForwarder(d.address(f1.port), &n);
    l->addForwarder(d.address(f2.port), &n);
    l->addForwarder(d.address(f3.port), &n);
    d.start(d.crecv);
    f1.send("06 fe 00 aaaaaa 09 04 04 01 000a 636c31", d.port.port);
    same("CONNECT by f1", d.event(), "client cl1 09040401000a636c31");
    f3.send("06 fe 00 aaaaaa 09 04 04 01 000a 636c33", d.port.port);
    same("CONNECT by f3", d.event(), "client cl3 09040401000a636c33");
    f2.send("06 fe 00 aaaaaa 09 04 04 01 000a 636c32", d.port.port);
    same("CONNECT by f2", d.event(), "client cl2 09040401000a636c32");
""", tasks=True)

bug("forwarded-secure", "R01", [(G + "MQTTSNGWClientList.cpp", "    return createClient(addr, clientId, false, false, type);", "    bool secure = addr == nullptr;   // adapters decide themselves\n    return createClient(addr, clientId, false, secure, type);")],
    "a client that is not in the list of clients and connects through a forwarder",
    "its connection to the broker is made with TLS although nothing asked for it", r"""
    Udp f;
    MQTTSNString n = MQTTSNString_initializer;
    n.cstring = strdup("f");
    d.gw->getAdapterManager()->getForwarderList()->addForwarder(d.address(f.port), &n);
    d.start(d.crecv);
    f.send("06 fe 00 aaaaaa 09 04 04 01 000a 636c39", d.port.port);
    same("CONNECT", d.event(), "client cl9 09040401000a636c39");
    MQTTSNString id = MQTTSNString_initializer;
    id.cstring = strdup("cl9");
    same("connection", d.gw->getClientList()->getClient(&id)->isSecureNetwork() ? "secure" : "plain", "plain");
""", tasks=True)
