"""Edits of the gateway that keep its behaviour; the checks have to stay quiet on them (development aid, no check).
   refactors.py [name..]: run the handler checks on each"""
import os, sys, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "MQTTSNGateway/src/"
L = "MQTTSNPacket/src/"
R = {}


def ref(name, *edits):
    R[name] = edits


ref("publish-flags-helper", (G + "MQTTSNGWPublishHandler.cpp",
    "MQTTGWPacket* MQTTSNPublishHandler::handlePublish(",
    "static bool isUnacknowledged(int qos)\n{\n    switch (qos)\n    {\n    case 1:\n    case 2:\n        return false;\n    default:\n        return true;\n    }\n}\n\nstatic void sendPuback(Gateway* gw, Client* client, uint16_t id, uint16_t msgId, uint8_t rc)\n{\n    Event* ev = new Event();\n    MQTTSNPacket* ack = new MQTTSNPacket();\n    ack->setPUBACK(id, msgId, rc);\n    ev->setClientSendEvent(client, ack);\n    gw->getClientSendQue()->post(ev);\n}\n\nMQTTGWPacket* MQTTSNPublishHandler::handlePublish("),
    (G + "MQTTSNGWPublishHandler.cpp", "if (!topic && (qos == 0 || qos == 3))", "if (!topic && isUnacknowledged(qos))"),
    (G + "MQTTSNGWPublishHandler.cpp", "if ((qos == 0 || qos == 3) && msgId > 0)", "if (msgId != 0 && isUnacknowledged(qos))"),
    (G + "MQTTSNGWPublishHandler.cpp", "            MQTTSNPacket* pubAck = new MQTTSNPacket();\n            pubAck->setPUBACK(topicid.data.id, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);\n            Event* ev1 = new Event();\n            ev1->setClientSendEvent(client, pubAck);\n            _gateway->getClientSendQue()->post(ev1);\n",
     "            sendPuback(_gateway, client, topicid.data.id, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);\n"),
    (G + "MQTTSNGWPublishHandler.cpp", "tid = ((uint8_t) shortTopic[0] << 8) | (uint8_t) shortTopic[1];", "tid = (uint8_t) shortTopic[0] * 256 + (uint8_t) shortTopic[1];"))
ref("publish-order", (G + "MQTTSNGWPublishHandler.cpp",
    "    pub.payload = (char*) payload;\n    pub.payloadlen = payloadlen;\n\n    MQTTGWPacket* publish = new MQTTGWPacket();\n    publish->setPUBLISH(&pub);\n", ""),
    (G + "MQTTSNGWPublishHandler.cpp", "    /* Save a msgId & a TopicId pare for PUBACK */", "    pub.payload = (char*) payload;\n    pub.payloadlen = payloadlen;\n\n    MQTTGWPacket* publish = new MQTTGWPacket();\n    publish->setPUBLISH(&pub);\n\n    /* Save a msgId & a TopicId pare for PUBACK */"))
ref("publish-msgid-late", (G + "MQTTSNGWPublishHandler.cpp",
    "    if ((qos == 1 || qos == 2) && msgId == 0)\n    {\n        WRITELOG(\"%s Invalid MsgId.%s %s\\n\", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);\n        return nullptr;\n    }\n",
    "    bool acked = (qos == 1 || qos == 2);\n    if (acked)\n    {\n        if (!msgId)\n        {\n            WRITELOG(\"%s Invalid MsgId.%s %s\\n\", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);\n            return nullptr;\n        }\n    }\n"))
ref("gwpublish-ack", (G + "MQTTGWPublishHandler.cpp",
    "        if (pub.header.bits.qos == 1)\n        {\n            replyACK(client, &pub, PUBACK);\n        }\n        else if (pub.header.bits.qos == 2)\n        {\n            replyACK(client, &pub, PUBREC);\n        }\n\n        MQTTGWPacket* msg",
    "        switch (pub.header.bits.qos)\n        {\n        case 1:\n            replyACK(client, &pub, PUBACK);\n            break;\n        case 2:\n            replyACK(client, &pub, PUBREC);\n            break;\n        default:\n            break;\n        }\n\n        MQTTGWPacket* msg"),
    (G + "MQTTGWPublishHandler.cpp", "    if (!client->isActive() && !client->isSleep() && !client->isAwake())", "    if (!(client->isActive() || client->isSleep() || client->isAwake()))"))
ref("gwpublish-short-first", (G + "MQTTGWPublishHandler.cpp",
    "        *(topicId.data.short_name) = *pub.topic;\n        *(topicId.data.short_name + 1) = *(pub.topic + 1);", "        memcpy(topicId.data.short_name, pub.topic, 2);"))
ref("gwpublish-unique-ptr", (G + "MQTTGWPublishHandler.cpp", "#include <string>", "#include <string>\n#include <memory>"),
    (G + "MQTTGWPublishHandler.cpp", "    MQTTSNPacket* snPacket = new MQTTSNPacket();\n\n    /* create MQTTSN_topicid */", "    std::unique_ptr<MQTTSNPacket> owned(new MQTTSNPacket());\n    MQTTSNPacket* snPacket = owned.get();\n\n    /* create MQTTSN_topicid */"),
    (G + "MQTTGWPublishHandler.cpp", "                delete snPacket;\n                return;\n", "                return;\n", 3),
    (G + "MQTTGWPublishHandler.cpp", "discard(client, &pub, snPacket);", "discard(client, &pub, owned.release());", 2),
    (G + "MQTTGWPublishHandler.cpp", "setPacket(snPacket, regackMsgId)", "setPacket(owned.release(), regackMsgId)"),
    (G + "MQTTGWPublishHandler.cpp", "    ev1->setClientSendEvent(client, snPacket);", "    ev1->setClientSendEvent(client, owned.release());"))
ref("setpublish-size", (G + "MQTTGWPacket.cpp",
    "    _remainingLength = 4 + pub->topiclen + pub->payloadlen;\n    _data = (unsigned char*) calloc(_remainingLength, 1);",
    "    bool hasId = _header.bits.qos != 0;\n    _remainingLength = (hasId ? 4 : 2) + pub->topiclen + pub->payloadlen;\n    _data = (unsigned char*) malloc(_remainingLength);"),
    (G + "MQTTGWPacket.cpp", "        if (_header.bits.qos > 0)\n        {\n            writeInt(&ptr, pub->msgId);\n        }\n        else\n        {\n            _remainingLength -= 2;\n        }", "        if (hasId)\n        {\n            *ptr++ = (unsigned char) (pub->msgId >> 8);\n            *ptr++ = (unsigned char) pub->msgId;\n        }"))
ref("getpublish-offset", (G + "MQTTGWPacket.cpp",
    "    ptr += pub->topiclen;\n    if (_header.bits.qos > 0)\n    {\n        pub->msgId = readInt(&ptr);\n        pub->payloadlen = _remainingLength - pub->topiclen - 4;\n    }\n    else\n    {\n        pub->msgId = 0;\n        pub->payloadlen = _remainingLength - pub->topiclen - 2;\n    }\n",
    "    ptr = pub->topic + topiclen;\n    pub->msgId = _header.bits.qos ? readInt(&ptr) : 0;\n    pub->payloadlen = _remainingLength - (int) (ptr - (char*) _data);\n"))
ref("setack-bytes", (G + "MQTTGWPacket.cpp", "        unsigned char* data = _data;\n        writeInt(&data, msgid);\n        return 1;", "        _data[0] = msgid / 256;\n        _data[1] = msgid % 256;\n        return 1;"),
    (G + "MQTTGWPacket.cpp", "    _header.bits.qos = (msgType == PUBREL) ? 1 : 0;\n\n    _data", "    _header.bits.qos = 0;\n    if (msgType == PUBREL)\n    {\n        _header.bits.qos = 1;\n    }\n\n    _data"))
ref("connect-length-first", (G + "MQTTGWPacket.cpp", "    _remainingLength = ((connect->version == 3) ? 12 : 10) + (int) strlen(connect->clientID) + 2;",
    "    int len = (connect->version == 3) ? 12 : 10;\n    len += 2 + (int) strlen(connect->clientID);"),
    (G + "MQTTGWPacket.cpp", "        _remainingLength += (int) strlen(connect->willTopic) + 2 + (int) strlen(connect->willMsg) + 2;", "        len += 4;\n        len += (int) strlen(connect->willTopic);\n        len += (int) strlen(connect->willMsg);"),
    (G + "MQTTGWPacket.cpp", "        _remainingLength += (int) strlen((char*) username) + 2;", "        len += (int) strlen((char*) username) + 2;"),
    (G + "MQTTGWPacket.cpp", "        _remainingLength += (int) strlen((char*) password) + 2;\n    }\n", "        len += (int) strlen((char*) password) + 2;\n    }\n    _remainingLength = len;\n"))
ref("writeint-shift", (G + "MQTTGWPacket.cpp", "    **pptr = (unsigned char) (anInt / 256);\n    (*pptr)++;\n    **pptr = (unsigned char) (anInt % 256);\n    (*pptr)++;", "    unsigned char* p = *pptr;\n    p[0] = (unsigned char) (anInt >> 8);\n    p[1] = (unsigned char) anInt;\n    *pptr = p + 2;"))
ref("status-if", (G + "MQTTSNGWClient.cpp",
    "        switch (packet->getType())\n        {\n        case MQTTSN_CONNECT:\n            _status = Cstat_Active;\n            break;\n        case MQTTSN_DISCONNECT:\n            uint16_t duration;\n            if (packet->getDISCONNECT(&duration) == 0)\n            {\n                break;\n            }\n            if (duration)\n            {\n                _status = Cstat_Asleep;\n            }\n            else\n            {\n                disconnected();\n            }\n            break;\n        case MQTTSN_PINGREQ:\n            _status = Cstat_Awake;\n            break;\n        case MQTTSN_PINGRESP:\n            _status = Cstat_Asleep;\n            break;\n        default:\n            break;\n        }\n",
    "        int type = packet->getType();\n        uint16_t duration = 0;\n        if (type == MQTTSN_PINGREQ)\n        {\n            _status = Cstat_Awake;\n        }\n        else if (type == MQTTSN_PINGRESP)\n        {\n            _status = Cstat_Asleep;\n        }\n        else if (type == MQTTSN_CONNECT)\n        {\n            _status = Cstat_Active;\n        }\n        else if (type == MQTTSN_DISCONNECT && packet->getDISCONNECT(&duration) != 0)\n        {\n            if (duration == 0)\n            {\n                disconnected();\n            }\n            else\n            {\n                _status = Cstat_Asleep;\n            }\n        }\n"))
ref("topics-for", (G + "MQTTSNGWTopic.cpp",
    "    Topic* p = _first;\n\n    while (p)\n    {\n        if (p->_type == topicid->type && p->_topicId == topicid->data.id)\n        {\n            return p;\n        }\n        p = p->_next;\n    }\n    return 0;",
    "    Topic* p;\n    for (p = _first; p != nullptr; p = p->_next)\n    {\n        bool hit = p->_topicId == topicid->data.id;\n        if (hit && p->_type == topicid->type)\n        {\n            break;\n        }\n    }\n    return p;"),
    (G + "MQTTSNGWTopic.cpp", "        Topic* tp = _first;\n        while (tp)\n        {\n            if (tp->_next == nullptr)\n            {\n                tp->_next = topic;\n                break;\n            }\n            else\n            {\n                tp = tp->_next;\n            }\n        }",
     "        Topic** tp = &_first;\n        while (*tp)\n        {\n            tp = &(*tp)->_next;\n        }\n        *tp = topic;"))
ref("topics-erase-indirect", (G + "MQTTSNGWTopic.cpp",
    "    Topic* topic = _first;\n    Topic* next = nullptr;\n    Topic* prev = nullptr;\n\n    while (topic)\n    {\n        if (topic->_type == MQTTSN_TOPIC_TYPE_NORMAL)\n        {\n            next = topic->_next;\n            if (_first == topic)\n            {\n                _first = next;\n            }\n            if (prev)\n            {\n                prev->_next = next;\n            }\n            delete topic;\n            _cnt--;\n            topic = next;\n        }\n        else\n        {\n            prev = topic;\n            topic = topic->_next;\n        }\n    }",
    "    Topic** link = &_first;\n    while (Topic* t = *link)\n    {\n        if (t->_type != MQTTSN_TOPIC_TYPE_NORMAL)\n        {\n            link = &t->_next;\n            continue;\n        }\n        *link = t->_next;\n        --_cnt;\n        delete t;\n    }"))
ref("topics-compare", (G + "MQTTSNGWTopic.cpp", "        if (p->_topicName->compare(sname) == 0)", "        if (*p->_topicName == sname)"))
ref("topics-compare-len", (G + "MQTTSNGWTopic.cpp", "        if (p->_topicName->compare(sname) == 0)", "        if (p->_topicName->length() == sname.length() && p->_topicName->compare(sname) == 0)"))
ref("idmap-erase-get", (G + "MQTTSNGWTopic.cpp",
    "    TopicIdMapElement* p = _first;\n    while (p)\n    {\n        if (p->_msgId == msgId)\n        {\n            if (p->_prev == nullptr)",
    "    TopicIdMapElement* p = getElement(msgId);\n    if (p != nullptr)\n    {\n        {\n            if (p->_prev == nullptr)"),
    (G + "MQTTSNGWTopic.cpp", "            delete p;\n            _cnt--;\n            break;\n\n        }\n        p = p->_next;\n    }", "            --_cnt;\n            delete p;\n        }\n    }"))
ref("idmap-wildcard", (G + "MQTTSNGWTopic.cpp", "        if (strchr(topic->data.long_.name, '#') != 0 || strchr(topic->data.long_.name, '+') != 0)\n        {\n            _wildcard = 1;\n        }",
    "        for (const char* c = topic->data.long_.name; *c; c++)\n        {\n            if (*c == '#' || *c == '+')\n            {\n                _wildcard = 1;\n                break;\n            }\n        }"))
ref("idmap-strpbrk", (G + "MQTTSNGWTopic.cpp", "if (strchr(topic->data.long_.name, '#') != 0 || strchr(topic->data.long_.name, '+') != 0)", "if (strpbrk(topic->data.long_.name, \"#+\"))"))
ref("que-post", (G + "MQTTSNGWProcess.h",
    "                if (_tail == _head)\n                {\n                    elm->_prev = _tail;\n                    _tail = elm;\n                    _head->_next = elm;\n                }\n                else\n                {\n                    _tail->_next = elm;\n                    elm->_prev = _tail;\n                    _tail = elm;\n                }",
    "                elm->_prev = _tail;\n                _tail->_next = elm;\n                _tail = elm;"),
    (G + "MQTTSNGWProcess.h", "            if (_head == _tail)\n            {\n                _head = _tail = nullptr;\n            }\n            else\n            {\n                _head = head->_next;\n                head->_prev = nullptr;\n            }\n            delete head;\n            _cnt--;",
     "            _head = head->_next;\n            if (_head == nullptr)\n            {\n                _tail = nullptr;\n            }\n            _cnt--;\n            delete head;"))
ref("sleep-for", (G + "MQTTSNGWConnectionHandler.cpp",
    "    while ((msg = client->getClientSleepPacket()) != nullptr)\n    {", "    for (msg = client->getClientSleepPacket(); msg != nullptr; msg = client->getClientSleepPacket())\n    {"))
ref("connect-helper", (G + "MQTTSNGWConnectionHandler.cpp",
    "        MQTTGWPacket* mqMsg = new MQTTGWPacket();\n        mqMsg->setCONNECT(client->getConnectData(), (unsigned char*) _gateway->getGWParams()->loginId,\n                (unsigned char*) _gateway->getGWParams()->password);\n        Event* ev1 = new Event();\n        ev1->setBrokerSendEvent(client, mqMsg);\n        _gateway->getBrokerSendQue()->post(ev1);\n",
    "        sendConnect(_gateway, client);\n"),
    (G + "MQTTSNGWConnectionHandler.cpp", "/*\n *  CONNECT\n */", "static void sendConnect(Gateway* gw, Client* client)\n{\n    GatewayParams* prm = gw->getGWParams();\n    Event* ev = new Event();\n    MQTTGWPacket* msg = new MQTTGWPacket();\n    msg->setCONNECT(client->getConnectData(), (unsigned char*) prm->loginId, (unsigned char*) prm->password);\n    ev->setBrokerSendEvent(client, msg);\n    gw->getBrokerSendQue()->post(ev);\n}\n\n/*\n *  CONNECT\n */"),
    (G + "MQTTSNGWConnectionHandler.cpp", "    memset(connectData, 0, sizeof(Connect));\n    if", "    *connectData = Connect();\n    if"))
ref("connect-order", (G + "MQTTSNGWConnectionHandler.cpp", "    client->setSessionStatus(false);\n    if (data.cleansession)\n    {", "    client->setSessionStatus(data.cleansession != 0);\n    if (data.cleansession)\n    {"),
    (G + "MQTTSNGWConnectionHandler.cpp", "            ;\n        }\n        client->setSessionStatus(true);\n", "        }\n"))
ref("disconnect-order", (G + "MQTTSNGWConnectionHandler.cpp",
    "    if (duration == 0)\n    {\n        MQTTGWPacket* mqMsg = new MQTTGWPacket();\n        mqMsg->setHeader(DISCONNECT);\n        Event* ev = new Event();\n        ev->setBrokerSendEvent(client, mqMsg);\n        _gateway->getBrokerSendQue()->post(ev);\n    }\n", ""),
    (G + "MQTTSNGWConnectionHandler.cpp", "    snMsg->setDISCONNECT(0);\n    Event* evt = new Event();\n    evt->setClientSendEvent(client, snMsg);\n    _gateway->getClientSendQue()->post(evt);\n", "    snMsg->setDISCONNECT(0);\n    Event* evt = new Event();\n    evt->setClientSendEvent(client, snMsg);\n    _gateway->getClientSendQue()->post(evt);\n    if (duration != 0)\n    {\n        return;\n    }\n    MQTTGWPacket* mqMsg = new MQTTGWPacket();\n    mqMsg->setHeader(DISCONNECT);\n    Event* ev = new Event();\n    ev->setBrokerSendEvent(client, mqMsg);\n    _gateway->getBrokerSendQue()->post(ev);\n"))
ref("subscribe-common", (G + "MQTTSNGWSubscribeHandler.cpp", "        topicId = (uint8_t) topicFilter.data.short_name[0] << 8;\n        topicId |= (uint8_t) topicFilter.data.short_name[1];", "        topicId = ((uint8_t) topicFilter.data.short_name[0] << 8) + (uint8_t) topicFilter.data.short_name[1];"),
    (G + "MQTTSNGWSubscribeHandler.cpp", "        char topicstr[3];\n        topicstr[0] = topicFilter.data.short_name[0];\n        topicstr[1] = topicFilter.data.short_name[1];\n        topicstr[2] = 0;\n        topicId", "        char topicstr[3] = { 0 };\n        memcpy(topicstr, topicFilter.data.short_name, 2);\n        topicId"))
ref("subscribe-string", (G + "MQTTSNGWSubscribeHandler.cpp", "        char topicstr[3];\n        topicstr[0] = topicFilter.data.short_name[0];\n        topicstr[1] = topicFilter.data.short_name[1];\n        topicstr[2] = 0;\n        topicId", "        string shortName(topicFilter.data.short_name, 2);\n        const char* topicstr = shortName.c_str();\n        topicId"))
ref("handlers-early-return", (G + "MQTTSNGWPublishHandler.cpp", "    if (client->isActive())\n    {\n        if (packet->getACK(&msgId) == 0)\n        {\n            return;\n        }\n", "    if (!client->isActive() || packet->getACK(&msgId) == 0)\n    {\n        return;\n    }\n    {\n"),
    (G + "MQTTGWPublishHandler.cpp", "    TopicIdMapElement* topicId = client->getWaitedPubTopicId((uint16_t) ack.msgId);\n    if (topicId)\n    {", "    if (TopicIdMapElement* topicId = client->getWaitedPubTopicId((uint16_t) ack.msgId))\n    {"))
ref("puback-copy", (G + "MQTTGWPublishHandler.cpp", "        mqttsnPacket->setPUBACK(topicId->getTopicId(), (uint16_t) ack.msgId, 0);\n\n        client->eraseWaitedPubTopicId((uint16_t) ack.msgId);\n", "        uint16_t id = topicId->getTopicId();\n        client->eraseWaitedPubTopicId((uint16_t) ack.msgId);\n        mqttsnPacket->setPUBACK(id, (uint16_t) ack.msgId, MQTTSN_RC_ACCEPTED);\n"))
ref("dispatch-if", (G + "MQTTSNGWPacketHandleTask.cpp", "    case PUBREL:\n        _mqttPublish->handleAck(client, packet, PUBREL);\n        break;\n    case PUBCOMP:\n        _mqttPublish->handleAck(client, packet, PUBCOMP);\n        break;\n    case SUBACK:\n        _mqttSubscribe->handleSuback", "    case PUBREL:\n    case PUBCOMP:\n        _mqttPublish->handleAck(client, packet, packet->getType());\n        break;\n    case SUBACK:\n        _mqttSubscribe->handleSuback"))
ref("run-helper", (G + "MQTTSNGWPacketHandleTask.cpp", "            if (adpMgr->isAggregatedClient(client))\n            {\n                aggregatePacketHandler(client, snPacket); // client is converted to Aggregater by BrokerSendTask\n            }\n            else\n            {\n                transparentPacketHandler(client, snPacket);\n            }\n", "            bool aggregated = adpMgr->isAggregatedClient(client);\n            if (!aggregated)\n            {\n                transparentPacketHandler(client, snPacket);\n            }\n            else\n            {\n                aggregatePacketHandler(client, snPacket);\n            }\n"),
    (G + "MQTTSNGWPacketHandleTask.cpp", "        else if (ev->getEventType() == EtBroadcast)\n        {\n            snPacket = ev->getMQTTSNPacket();\n            _mqttsnConnection->handleSearchgw(snPacket);\n        }", "        else if (ev->getEventType() == EtBroadcast)\n        {\n            _mqttsnConnection->handleSearchgw(ev->getMQTTSNPacket());\n        }"))
ref("willstring-loop", (G + "MQTTSNGWClient.cpp", "    unsigned char* ptr = (unsigned char*) _willTopic;\n    writeMQTTSNString((unsigned char**) &ptr, willTopic);", "    int len = MQTTSNstrlen(willTopic);\n    const char* src = willTopic.cstring ? willTopic.cstring : willTopic.lenstring.data;\n    for (int i = 0; i < len; i++)\n    {\n        _willTopic[i] = src[i];\n    }"))
ref("regack-find", (G + "MQTTSNGWClient.cpp", "    waitREGACKPacket* p = _first;\n    while (p)\n    {\n        if (p->_msgId == REGACKMsgId)\n        {\n            return p->_packet;\n        }\n        p = p->_next;\n    }\n    return nullptr;", "    waitREGACKPacket* p = _first;\n    while (p && p->_msgId != REGACKMsgId)\n    {\n        p = p->_next;\n    }\n    return p ? p->_packet : nullptr;"))


# ---- the other tasks ("task-": R01-R04, M01, O01 of the tasks are run)
ref("task-bsend-helper", (G + "MQTTSNGWBrokerSendTask.cpp",
    "/**\n *  connect to the broker and send MQTT messges\n */\n",
    "static bool openConnection(Client* client, GatewayParams* par)\n{\n    Network* net = client->getNetwork();\n    if (!client->isSecureNetwork())\n    {\n        return net->connect((const char*) par->brokerName, (const char*) par->port);\n    }\n"
    "    return net->connect((const char*) par->brokerName, (const char*) par->portSecure, (const char*) par->rootCApath,\n            (const char*) par->rootCAfile, (const char*) par->certKey, (const char*) par->privateKey);\n}\n\n/**\n *  connect to the broker and send MQTT messges\n */\n"),
    (G + "MQTTSNGWBrokerSendTask.cpp",
     "                if (client->isSecureNetwork())\n                {\n                    rc = client->getNetwork()->connect((const char*) _gwparams->brokerName, (const char*) _gwparams->portSecure,\n                            (const char*) _gwparams->rootCApath, (const char*) _gwparams->rootCAfile,\n                            (const char*) _gwparams->certKey, (const char*) _gwparams->privateKey);\n                }\n                else\n                {\n                    rc = client->getNetwork()->connect((const char*) _gwparams->brokerName, (const char*) _gwparams->port);\n                }\n\n                if (!rc)",
     "                if (!openConnection(client, _gwparams))"))
ref("task-bsend-continue", (G + "MQTTSNGWBrokerSendTask.cpp",
    "        if (ev->getEventType() == EtBrokerSend)\n        {\n            client = ev->getClient();", "        if (ev->getEventType() != EtBrokerSend)\n        {\n            delete ev;\n            continue;\n        }\n        {\n            client = ev->getClient();"),
    (G + "MQTTSNGWBrokerSendTask.cpp", "            if ((rc = packet->send(client->getNetwork())) > 0)\n            {\n                if (packet->getType() == DISCONNECT)",
     "            rc = packet->send(client->getNetwork());\n            bool sent = rc > 0;\n            if (sent)\n            {\n                bool leaving = packet->getType() == DISCONNECT;\n                if (leaving)"))
ref("task-brecv-helper", (G + "MQTTSNGWBrokerRecvTask.cpp",
    "/**\n *  receive a MQTT messge from the broker and post a event.\n */\n",
    "static int prepareSockets(Gateway* gw, fd_set* set)\n{\n    int high = 0;\n    FD_ZERO(set);\n    for (Client* c = gw->getClientList()->getClient(0); c != nullptr; c = c->getNextClient())\n    {\n        Network* n = c->getNetwork();\n        if (!n->isValid())\n        {\n            continue;\n        }\n        int fd = n->getSock();\n        FD_SET(fd, set);\n        high = fd > high ? fd : high;\n    }\n    return high;\n}\n\n/**\n *  receive a MQTT messge from the broker and post a event.\n */\n"),
    (G + "MQTTSNGWBrokerRecvTask.cpp",
     "        FD_ZERO(&rset);\n        FD_ZERO(&wset);\n        int maxSock = 0;\n        int sockfd = 0;\n\n        /* Prepare sockets list to read */\n        Client* client = _gateway->getClientList()->getClient(0);\n\n        while (client)\n        {\n            if (client->getNetwork()->isValid())\n            {\n                sockfd = client->getNetwork()->getSock();\n                FD_SET(sockfd, &rset);\n                FD_SET(sockfd, &wset);\n                if (sockfd > maxSock)\n                {\n                    maxSock = sockfd;\n                }\n            }\n            client = client->getNextClient();\n        }\n",
     "        Client* client = nullptr;\n        int maxSock = prepareSockets(_gateway, &rset);\n"),
    (G + "MQTTSNGWBrokerRecvTask.cpp", "    fd_set wset;\n", ""))
ref("task-brecv-for", (G + "MQTTSNGWBrokerRecvTask.cpp",
    "                                else if (rc == -1)\n                                {", "                                else if (rc == -1 && rc != 0)\n                                {"),
    (G + "MQTTSNGWBrokerRecvTask.cpp", "                                if ((rc == -1 || rc == -2) && (client->isActive() || client->isSleep() || client->isAwake()))\n                                {\n                                    client->getNetwork()->close();\n                                    client->disconnected();\n                                }\n",
     "                                bool broken = rc == -1 || rc == -2;\n                                bool living = client->isActive() || client->isSleep() || client->isAwake();\n                                if (broken && living)\n                                {\n                                    Network* net = client->getNetwork();\n                                    client->disconnected();\n                                    net->close();\n                                }\n"))
ref("task-mqrecv", (G + "MQTTGWPacket.cpp",
    "        int pos = 0;\n\n        while (pos < _remainingLength)\n        {\n            int remain = _remainingLength - pos;\n            int rlen = network->recv(_data + pos, remain > UINT16_MAX ? UINT16_MAX : remain);\n\n            if (rlen <= 0)\n            {\n                return -1;\n            }\n            pos += rlen;\n        }\n",
    "        unsigned char* at = _data;\n        unsigned char* end = _data + _remainingLength;\n        do\n        {\n            long want = end - at;\n            if (want > 65535)\n            {\n                want = 65535;\n            }\n            int got = network->recv(at, want);\n            if (got < 1)\n            {\n                return -1;\n            }\n            at += got;\n        } while (at != end);\n"),
    (G + "MQTTGWPacket.cpp", "        _remainingLength += (c & 127) * multiplier;\n        multiplier *= 128;\n    }\n    while ((c & 128) != 0);", "        _remainingLength += (c % 128) * multiplier;\n        multiplier = multiplier << 7;\n    }\n    while (c >= 128);"))
ref("task-mqencode", (G + "MQTTGWPacket.cpp",
    "    int rc = 0;\n    do\n    {\n        char d = length % 128;\n        length /= 128;\n        /* if there are more digits to encode, set the top bit of this digit */\n        if (length > 0)\n            d |= 0x80;\n        buf[rc++] = d;\n    }\n    while (length > 0);\n    return rc;",
    "    char* p = buf;\n    while (length > 127)\n    {\n        *p++ = (char) ((length & 0x7f) | 0x80);\n        length >>= 7;\n    }\n    *p++ = (char) length;\n    return p - buf;"))
ref("task-crecv-switch", (G + "MQTTSNGWClientRecvTask.cpp",
    "        if (packetLen < 2)\n        {\n            delete packet;\n            continue;\n        }\n\n        if (packet->getType() <= MQTTSN_ADVERTISE || packet->getType() == MQTTSN_GWINFO)\n        {\n            delete packet;\n            continue;\n        }\n\n        if (packet->getType() == MQTTSN_SEARCHGW)\n        {\n            /* write log and post Event */\n            log(0, packet, 0);\n            ev = new Event();\n            ev->setBrodcastEvent(packet);\n            packetEventQue->post(ev);\n            continue;\n        }\n",
    "        int type = packetLen < 2 ? -1 : packet->getType();\n        bool forMe = type > MQTTSN_ADVERTISE && type != MQTTSN_GWINFO;\n        if (!forMe)\n        {\n            delete packet;\n            continue;\n        }\n        switch (type)\n        {\n        case MQTTSN_SEARCHGW:\n            log(0, packet, 0);\n            ev = new Event();\n            ev->setBrodcastEvent(packet);\n            packetEventQue->post(ev);\n            continue;\n        default:\n            break;\n        }\n"))
ref("task-crecv-helper", (G + "MQTTSNGWClientRecvTask.cpp",
    "/*\n * Receive a packet from clients via sensor netwwork",
    "static void refuse(Gateway* gw, Client* client)\n{\n    MQTTSNPacket* disc = new MQTTSNPacket();\n    disc->setDISCONNECT(0);\n    Event* e = new Event();\n    e->setClientSendEvent(client, disc);\n    gw->getClientSendQue()->post(e);\n}\n\n/*\n * Receive a packet from clients via sensor netwwork"),
    (G + "MQTTSNGWClientRecvTask.cpp",
     "                MQTTSNPacket* snPacket = new MQTTSNPacket();\n                snPacket->setDISCONNECT(0);\n                ev = new Event();\n                ev->setClientSendEvent(client, snPacket);\n                clientsendQue->post(ev);\n                delete packet;\n",
     "                delete packet;\n                refuse(_gateway, client);\n"))
ref("task-crecv-newclient", (G + "MQTTSNGWClientRecvTask.cpp",
    "                    if (client)\n                    {\n                        /* Authentication is not required */\n                        if (_gateway->getGWParams()->clientAuthentication == false)\n                        {\n                            client->setClientAddress(&senderAddr);\n                        }\n                    }\n                    else if (!clientList->isAuthorized())\n",
    "                    bool known = client != nullptr;\n                    if (known && !_gateway->getGWParams()->clientAuthentication)\n                    {\n                        client->setClientAddress(&senderAddr);\n                    }\n                    if (!known && !clientList->isAuthorized())\n"))
ref("task-csend-switch", (G + "MQTTSNGWClientSendTask.cpp",
    "        if (ev->getEventType() == EtBroadcast)\n        {\n            packet = ev->getMQTTSNPacket();\n            log(client, packet);\n\n            if (packet->broadcast(_sensorNetwork) < 0)\n            {\n                WRITELOG(\"%s ClientSendTask can't multicast a packet Error=%d%s\\n\",\n                ERRMSG_HEADER, errno, ERRMSG_FOOTER);\n            }\n        }\n        else\n        {\n            if (ev->getEventType() == EtClientSend)\n            {\n                client = ev->getClient();\n                packet = ev->getMQTTSNPacket();\n                rc = adpMgr->unicastToClient(client, packet, this);\n            }\n            else if (ev->getEventType() == EtSensornetSend)\n            {\n                packet = ev->getMQTTSNPacket();\n                log(client, packet);\n                rc = packet->unicast(_sensorNetwork, ev->getSensorNetAddress());\n            }\n",
    "        packet = ev->getMQTTSNPacket();\n        switch (ev->getEventType())\n        {\n        case EtBroadcast:\n            log(client, packet);\n            rc = packet->broadcast(_sensorNetwork);\n            break;\n        case EtClientSend:\n            client = ev->getClient();\n            rc = adpMgr->unicastToClient(client, packet, this);\n            break;\n        case EtSensornetSend:\n            log(client, packet);\n            rc = packet->unicast(_sensorNetwork, ev->getSensorNetAddress());\n            break;\n        default:\n            break;\n        }\n        {\n"))
ref("task-encap", (G + "MQTTSNGWEncapsulatedPacket.cpp",
    "    buf[0] = _id._len + 3;\n    buf[1] = MQTTSN_ENCAPSULATED;\n    buf[2] = _ctrl;\n    memcpy(buf + 3, _id._nodeId, _id._len);\n    if (_mqttsn)\n    {\n        memcpy(buf + buf[0], _mqttsn->getPacketData(), len);\n    }\n    return buf[0] + len;",
    "    uint8_t* p = buf;\n    *p++ = _id._len + 3;\n    *p++ = MQTTSN_ENCAPSULATED;\n    *p++ = _ctrl;\n    for (int i = 0; i < _id._len; i++)\n    {\n        *p++ = _id._nodeId[i];\n    }\n    if (_mqttsn)\n    {\n        memcpy(p, _mqttsn->getPacketData(), len);\n        p += len;\n    }\n    return p - buf;"))
ref("task-unicast", (G + "MQTTSNGWAdapterManager.cpp",
    "        task->log(client, packet);\n        if (client->isQoSm1Proxy())\n        {\n            _qosm1Proxy->send(packet, client);\n        }\n        else if (client->isAggregater())\n        {\n            _aggregater->send(packet, client);\n        }\n        else\n        {\n            rc = packet->unicast(_gateway->getSensorNetwork(), client->getSensorNetAddress());\n        }\n",
    "        task->log(client, packet);\n        Adapter* adapter = nullptr;\n        if (client->isQoSm1Proxy())\n        {\n            adapter = _qosm1Proxy;\n        }\n        else if (client->isAggregater())\n        {\n            adapter = _aggregater;\n        }\n        if (adapter)\n        {\n            adapter->send(packet, client);\n            return 0;\n        }\n        rc = packet->unicast(_gateway->getSensorNetwork(), client->getSensorNetAddress());\n"))
ref("task-clientlist", (G + "MQTTSNGWClientList.cpp",
    "    if (addr)\n    {\n        _mutex.lock();\n        Client* client = _firstClient;\n\n        while (client != nullptr)\n        {\n            if (client->getSensorNetAddress()->isMatch(addr))\n            {\n                _mutex.unlock();\n                return client;\n            }\n            client = client->_nextClient;\n        }\n        _mutex.unlock();\n    }\n    return 0;",
    "    if (!addr)\n    {\n        return nullptr;\n    }\n    _mutex.lock();\n    Client* found = nullptr;\n    for (Client* c = _firstClient; c && !found; c = c->_nextClient)\n    {\n        if (addr->isMatch(c->getSensorNetAddress()))\n        {\n            found = c;\n        }\n    }\n    _mutex.unlock();\n    return found;"),
    (G + "MQTTSNGWClientList.cpp", "strlen(id) == (size_t) MQTTSNstrlen(*clientId) && strncmp(id, clID, MQTTSNstrlen(*clientId)) == 0", "(int) strlen(id) == MQTTSNstrlen(*clientId) && memcmp(id, clID, strlen(id)) == 0"))
ref("task-forwarder", (G + "MQTTSNGWForwarder.cpp",
    "    Client* cl = nullptr;\n    _mutex.lock();\n    ForwarderElement* p = _headClient;\n    while (p)\n    {\n        if (*(p->_wirelessNodeId) == *id)\n        {\n            cl = p->_client;\n            break;\n        }\n        else\n        {\n            p = p->_next;\n        }\n    }\n    _mutex.unlock();\n    return cl;",
    "    _mutex.lock();\n    ForwarderElement* p = _headClient;\n    while (p && !(*id == *(p->_wirelessNodeId)))\n    {\n        p = p->_next;\n    }\n    Client* cl = p ? p->_client : nullptr;\n    _mutex.unlock();\n    return cl;"),
    (G + "MQTTSNGWForwarder.cpp", "    ForwarderElement* fclient = new ForwarderElement();\n\n    fclient->setClient(client);\n    fclient->setWirelessNodeId(id);\n\n    if (prev)\n    {\n        prev->_next = fclient;\n    }\n    else\n    {\n        _headClient = fclient;\n    }",
     "    ForwarderElement** last = prev ? &prev->_next : &_headClient;\n    *last = new ForwarderElement();\n    (*last)->setWirelessNodeId(id);\n    (*last)->setClient(client);"))


Q = G + "MQTTSNGateway.cpp"
CL = G + "MQTTSNGWClientList.cpp"
FW = G + "MQTTSNGWForwarder.cpp"
ref("lock-guard-class", (CL, "Client* ClientList::getClient(SensorNetAddress* addr)\n{\n    if (addr)\n    {\n        _mutex.lock();\n        Client* client = _firstClient;",
    "namespace\n{\nclass Locked\n{\npublic:\n    explicit Locked(Mutex& m) : _m(m) { _m.lock(); }\n    ~Locked() { _m.unlock(); }\nprivate:\n    Mutex& _m;\n};\n}\n\nClient* ClientList::getClient(SensorNetAddress* addr)\n{\n    if (addr)\n    {\n        Locked guard(_mutex);\n        Client* client = _firstClient;"),
    (CL, "            if (client->getSensorNetAddress()->isMatch(addr))\n            {\n                _mutex.unlock();\n                return client;", "            if (client->getSensorNetAddress()->isMatch(addr))\n            {\n                return client;"),
    (CL, "            client = client->_nextClient;\n        }\n        _mutex.unlock();\n    }\n    return 0;", "            client = client->_nextClient;\n        }\n    }\n    return 0;"))
ref("lock-single-exit", (CL, "        while (client != nullptr)\n        {\n            if (client->getSensorNetAddress()->isMatch(addr))\n            {\n                _mutex.unlock();\n                return client;\n            }\n            client = client->_nextClient;\n        }\n        _mutex.unlock();\n    }\n    return 0;",
    "        while (client != nullptr && !client->getSensorNetAddress()->isMatch(addr))\n        {\n            client = client->_nextClient;\n        }\n        _mutex.unlock();\n        return client;\n    }\n    return nullptr;"))
ref("lock-helper", (Q, "Event* EventQue::timedwait(uint16_t millsec)", "static Event* takeFirst(Que<Event>& que)\n{\n    Event* ev = que.front();\n    que.pop();\n    return ev;\n}\n\nEvent* EventQue::timedwait(uint16_t millsec)"),
    (Q, "    else\n    {\n        ev = _que.front();\n        _que.pop();\n    }", "    else\n    {\n        ev = takeFirst(_que);\n    }"))
ref("lock-flag", (Q, "        _mutex.lock();\n        if (_que.post(ev))\n        {\n            _sem.post();\n        }\n        else\n        {\n            delete ev;\n        }\n        _mutex.unlock();",
    "        _mutex.lock();\n        bool posted = _que.post(ev) != 0;\n        if (posted)\n        {\n            _sem.post();\n        }\n        _mutex.unlock();\n        if (!posted)\n        {\n            delete ev;\n        }"))
ref("lock-post-early", (Q, "    if (ev)\n    {\n        _mutex.lock();\n        if (_que.post(ev))", "    if (!ev)\n    {\n        return;\n    }\n    {\n        _mutex.lock();\n        if (_que.post(ev))"))
ref("lock-node-id", (FW, "    WirelessNodeId* nodeId = nullptr;\n    _mutex.lock();\n    ForwarderElement* p = _headClient;\n    while (p)\n    {\n        if (p->_client == client)\n        {\n            nodeId = p->_wirelessNodeId;\n            break;\n        }\n        else\n        {\n            p = p->_next;\n        }\n    }\n    _mutex.unlock();\n    return nodeId;",
    "    _mutex.lock();\n    for (ForwarderElement* p = _headClient; p; p = p->_next)\n    {\n        if (p->_client == client)\n        {\n            WirelessNodeId* nodeId = p->_wirelessNodeId;\n            _mutex.unlock();\n            return nodeId;\n        }\n    }\n    _mutex.unlock();\n    return nullptr;"))
ref("stop-helper", (Q, "    Event* ev = new Event();\n    ev->setStop();\n    _packetEventQue.post(ev);\n    ev = new Event();\n    ev->setStop();\n    _brokerSendQue.post(ev);\n    ev = new Event();\n    ev->setStop();\n    _clientSendQue.post(ev);",
    "    EventQue* queues[] = { &_clientSendQue, &_brokerSendQue, &_packetEventQue };\n    for (size_t i = 0; i < sizeof(queues) / sizeof(queues[0]); i++)\n    {\n        Event* ev = new Event();\n        ev->setStop();\n        queues[i]->post(ev);\n    }"))
ref("stop-frame", (G + "linux/Threading.h", "        theMultiTaskProcess->abort(); \\\n    } \\\n    theMultiTaskProcess->threadStopped(); \\\n}", "        theMultiTaskProcess->abort(); \\\n        theMultiTaskProcess->threadStopped(); \\\n        return; \\\n    } \\\n    theMultiTaskProcess->threadStopped(); \\\n}"))
ref("stop-loops", (G + "MQTTSNGWProcess.cpp", "    while (true)\n    {\n        if (theProcess->checkSignal() == SIGINT)\n        {\n            return;\n        }\n        sleep(1);\n    }", "    while (theProcess->checkSignal() != SIGINT)\n    {\n        usleep(1000000);\n    }"),
    (G + "MQTTSNGWProcess.cpp", "    while (_stopCount < _threadCount)\n    {\n        sleep(1);\n    }", "    do\n    {\n        sleep(1);\n    } while (_threadCount > _stopCount);"))

RUN = r'''
import sys, os
sys.path.insert(0, %r)
import report, handlers, build, codec
r = report.Report("ALL", "quick")
try:
    handlers.run_cases(r, *handlers.CASES)
    bad = [k for k, o in r.obl.items() if not o["ok"]]
    print("RESULT", len(bad), [(k, r.obl[k]["detail"][:120], r.obl[k]["where"][:80]) for k in bad[:3]])
except build.AnalysisBroken as e:
    print("RESULT broken", str(e)[:600])
''' % (V + "/sa")

RUN_TASKS = """
import sys, os; sys.path.insert(0, %r)
import report, tasks, build
n, bad = 0, []
try:
    for p in ("R01", "R02", "R03", "R04", "M01", "O01"):
        r = report.Report(p, "quick")
        if p[0] == "R":
            tasks.REG[p](r)
        else:
            tasks.run_cases(r, *tasks.CASES)
            for c in ("clients", "fwd"):
                r.case_name = c
                tasks.table(r, (c,))
        n += len(r.obl)
        bad += [(p, k, o["detail"][:120], o["where"][:80]) for k, o in r.obl.items() if not o["ok"]]
    print("RESULT", len(bad), bad[:4] or n)
except build.AnalysisBroken as e:
    print("RESULT broken", str(e)[:600])
""" % (V + "/sa")

NET = "MQTTSNGateway/src/linux/Network.cpp"
R["net-send-loop"] = [(NET, "\t\t\t\t\tint r = SSL_write(_ssl, buf + bpos, length);\n", "\t\t\t\t\tconst uint8_t* rest = &buf[bpos];\n\t\t\t\t\tconst int r = SSL_write(_ssl, rest, (int) length);\n"),
    (NET, "\t\t\t\t\t\tlength -= r;\n\t\t\t\t\t\tbpos += r;\n\t\t\t\t\t\tif (length == 0)\n", "\t\t\t\t\t\tbpos = bpos + r;\n\t\t\t\t\t\tlength = length - r;\n\t\t\t\t\t\tif (!length)\n")]
R["net-send-for"] = [(NET, "\tint bpos = 0;\n\n\tif (!_secureFlg)\n\t{\n\t\treturn TCPStack::send(buf, length);\n\t}\n\telse\n", "\tint bpos = 0;\n\tconst uint16_t total = length;\n\n\tif (_secureFlg == false)\n\t{\n\t\treturn TCPStack::send(buf, length);\n\t}\n"),
    (NET, "SSL_write(_ssl, buf + bpos, length)", "SSL_write(_ssl, buf + bpos, total - bpos)"),
    (NET, "\t\t\t\t\t\tlength -= r;\n\t\t\t\t\t\tbpos += r;\n\t\t\t\t\t\tif (length == 0)\n", "\t\t\t\t\t\tbpos += r;\n\t\t\t\t\t\tif (bpos == total)\n")]
R["net-close-helper"] = [(NET, "void Network::close(void)\n{\n\t_mutex.lock();\n\tif (_secureFlg)\n", "static void endSession(SSL* ssl)\n{\n\tSSL_shutdown(ssl);\n\tSSL_free(ssl);\n}\n\nvoid Network::close(void)\n{\n\t_mutex.lock();\n\tif (isSecure())\n"),
    (NET, "\t\t\tSSL_shutdown(_ssl);\n\t\t\tSSL_free(_ssl);\n\t\t\t_numOfInstance--;\n\t\t\t_ssl = 0;\n\t\t\t_sslValid = false;\n\t\t\t_busy = false;\n", "\t\t\t_numOfInstance--;\n\t\t\t_sslValid = false;\n\t\t\t_busy = false;\n\t\t\tendSession(_ssl);\n\t\t\t_ssl = nullptr;\n"),
    (NET, "\t\tif (_session && _numOfInstance == 0)\n\t\t{\n\t\t\tSSL_SESSION_free(_session);\n\t\t\t_session = 0;\n\t\t}\n\t\tif (_ctx && _numOfInstance == 0)\n\t\t{\n\t\t\tSSL_CTX_free(_ctx);\n\t\t\t_ctx = 0;\n\t\t\tERR_free_strings();\n\t\t}\n",
     "\t\tif (_numOfInstance == 0)\n\t\t{\n\t\t\tif (_ctx)\n\t\t\t{\n\t\t\t\tSSL_CTX_free(_ctx);\n\t\t\t\t_ctx = 0;\n\t\t\t\tERR_free_strings();\n\t\t\t}\n\t\t\tSSL_SESSION_free(_session);\n\t\t\t_session = 0;\n\t\t}\n")]
R["net-valid"] = [(NET, "\tif ( TCPStack::isValid() )\n\t{\n\t\tif (_secureFlg)\n\t\t{\n\t\t\tif (_sslValid && !_busy)\n\t\t\t{\n\t\t\t\treturn true;\n\t\t\t}\n\t\t}\n\t\telse\n\t\t{\n\t\t\treturn true;\n\t\t}\n\t}\n\treturn false;\n", "\treturn TCPStack::isValid() && (!_secureFlg || (_sslValid && !_busy));\n")]
R["net-fail-helper"] = [(NET, "bool Network::connect(const char* host, const char* port, const char* caPath", "static bool dropped(SSL*& ssl)\n{\n\tSSL_free(ssl);\n\tssl = nullptr;\n\treturn false;\n}\n\nbool Network::connect(const char* host, const char* port, const char* caPath"),
    (NET, "\t\t\tSSL_free(_ssl);\n\t\t\t_ssl = 0;\n\t\t\tthrow false;\n", "\t\t\tthrow dropped(_ssl);\n", 5),
    (NET, "\t\tint result;\n\t\tif ( (result = SSL_get_verify_result(_ssl)) != X509_V_OK)", "\t\tconst long result = SSL_get_verify_result(_ssl);\n\t\tif (X509_V_OK != result)")]
R["net-host-string"] = [(NET, "\t\tif ( strcmp(host, pos))", "\t\tif ( strncmp(pos, host, strlen(host) + 1) != 0)")]
R["net-tcp-each"] = [(NET, "\tint sockfd = socket(_addrinfo->ai_family, _addrinfo->ai_socktype, _addrinfo->ai_protocol);\n\n\tif (sockfd < 0)\n", "\tconst addrinfo* to = _addrinfo;\n\tint sockfd = ::socket(to->ai_family, to->ai_socktype, to->ai_protocol);\n\n\tif (sockfd == -1)\n"),
    (NET, "\tif (::connect(sockfd, _addrinfo->ai_addr, _addrinfo->ai_addrlen) < 0)\n", "\tif (::connect(sockfd, to->ai_addr, to->ai_addrlen) != 0)\n")]

CL = G + "MQTTSNGWClientList.cpp"
PRC = G + "MQTTSNGWProcess.cpp"
GWC = G + "MQTTSNGateway.cpp"
ref("conf-list-helpers",
    (CL, "bool ClientList::createList(const char* fileName, int type)\n{\n", "static bool hasFlag(const string& line, const char* flag)\n{\n    return line.find(flag) != string::npos;\n}\n\nstatic void stripBlanks(string& s)\n{\n    const char* blanks = \" \\u3000\\t\\n\";\n    for (size_t at = s.find_first_of(blanks); at != string::npos; at = s.find_first_of(blanks, at))\n    {\n        s.erase(at, 1);\n    }\n}\n\nbool ClientList::createList(const char* fileName, int type)\n{\n"),
    (CL, "                qos_1 = (data.find(\"QoS-1\") != string::npos);\n                forwarder = (data.find(\"forwarder\") != string::npos);\n                secure = (data.find(\"secureConnection\") != string::npos);\n                stable = !(data.find(\"unstableLine\") != string::npos);\n",
     "                stable = !hasFlag(data, \"unstableLine\");\n                secure = hasFlag(data, \"secureConnection\");\n                forwarder = hasFlag(data, \"forwarder\");\n                qos_1 = hasFlag(data, \"QoS-1\");\n"),
    (CL, "            while ((pos = data.find_first_of(\" \u3000\\t\\n\")) != string::npos)\n            {\n                data.erase(pos, 1);\n            }\n", "            stripBlanks(data);\n"),
    (CL, "            while ((pos0 = data.find_first_of(\" \u3000\\t\\n\")) != string::npos)\n            {\n                data.erase(pos0, 1);\n            }\n", "            stripBlanks(data);\n"))
ref("conf-list-continue",
    (CL, "            if (netAddr.setAddress(&addr) == 0)\n            {\n                qos_1", "            if (netAddr.setAddress(&addr) != 0)\n            {\n                WRITELOG(\"Invalid address     %s\\n\", data.c_str());\n                free(clientId.cstring);\n                continue;\n            }\n            {\n                qos_1"),
    (CL, "            else\n            {\n                WRITELOG(\"Invalid address     %s\\n\", data.c_str());\n                rc = false;\n            }\n", ""),
    (CL, "                if ((qos_1 && type == QOSM1PROXY_TYPE) || (!qos_1 && type == AGGREGATER_TYPE))\n                {\n                    createClient(&netAddr, &clientId, stable, secure, type);\n                }\n                else if (forwarder && type == FORWARDER_TYPE)\n                {\n                    _gateway->getAdapterManager()->getForwarderList()->addForwarder(&netAddr, &clientId);\n                }\n                else if (type == TRANSPEARENT_TYPE)\n                {\n                    createClient(&netAddr, &clientId, stable, secure, type);\n                }\n",
     "                switch (type)\n                {\n                case FORWARDER_TYPE:\n                    if (forwarder)\n                    {\n                        _gateway->getAdapterManager()->getForwarderList()->addForwarder(&netAddr, &clientId);\n                    }\n                    break;\n                case QOSM1PROXY_TYPE:\n                case AGGREGATER_TYPE:\n                    if (qos_1 != (type == QOSM1PROXY_TYPE))\n                    {\n                        break;\n                    }\n                    createClient(&netAddr, &clientId, stable, secure, type);\n                    break;\n                case TRANSPEARENT_TYPE:\n                    createClient(&netAddr, &clientId, stable, secure, type);\n                    break;\n                }\n"))
ref("conf-topics-strings",
    (CL, "            string id = data.substr(0, pos0);\n            clientId.cstring = strdup(id.c_str());\n            string topicName = data.substr(pos0 + 1, pos1 - pos0 - 1);\n            uint16_t topicID = stoul(data.substr(pos1 + 1));\n            createPredefinedTopic(&clientId, topicName, topicID, aggregate);\n            free(clientId.cstring);\n",
     "            string id(data, 0, pos0);\n            string topicName(data, pos0 + 1, pos1 - pos0 - 1);\n            clientId.cstring = (char*) id.c_str();\n            createPredefinedTopic(&clientId, topicName, (uint16_t) strtoul(data.c_str() + pos1 + 1, nullptr, 10), aggregate);\n"),
    (CL, "    if (strcmp(clientId->cstring, common_topic) == 0)\n    {", "    if (string(clientId->cstring) == common_topic)\n    {"))
ref("conf-getparam-strchr",
    (PRC, "        len = strlen(str);\n        for (pos = 0; pos < len; pos++)\n        {\n            if (str[pos] == '=')\n            {\n                break;\n            }\n        }\n\n        if (pos == paramlen && str[pos] == '=')\n        {\n            if (strncmp(str, parameter, paramlen) == 0)\n            {\n                strcpy(param, str + pos + 1);\n",
     "        char* sep = strchr(str, '=');\n        if (sep != NULL && sep - str == paramlen)\n        {\n            if (memcmp(str, parameter, paramlen) == 0)\n            {\n                strcpy(param, sep + 1);\n"),
    (PRC, "        int pos = 0;\n        int len = 0;\n        if (fgets(str", "        if (fgets(str"))
ref("conf-getparam-trim",
    (PRC, "                for (i = strlen(param) - 1; i >= 0 && isspace(param[i]); i--)\n                    ;\n                param[i + 1] = '\\0';\n                for (i = 0; isspace(param[i]); i++)\n                    ;\n                if (i > 0)\n                {\n                    j = 0;\n                    while (param[i])\n                        param[j++] = param[i++];\n                    param[j] = '\\0';\n                }\n                strcpy(value, param);\n",
     "                char* first = param;\n                while (isspace(*first))\n                {\n                    first++;\n                }\n                char* end = first + strlen(first);\n                while (end > first && isspace(end[-1]))\n                {\n                    end--;\n                }\n                *end = '\\0';\n                strcpy(value, first);\n"),
    (PRC, "    int i = 0, j = 0;\n    string configPath", "    string configPath"))
ref("conf-init-helper",
    (GWC, "void Gateway::initialize(int argc, char** argv)\n{\n", "static char* copyParam(Gateway* gw, const char* name)\n{\n    char value[MQTTSNGW_PARAM_MAX];\n    return gw->getParam(name, value) == 0 ? strdup(value) : nullptr;\n}\n\nstatic bool isYes(Gateway* gw, const char* name)\n{\n    char value[MQTTSNGW_PARAM_MAX];\n    return gw->getParam(name, value) == 0 && strcasecmp(value, \"YES\") == 0;\n}\n\nvoid Gateway::initialize(int argc, char** argv)\n{\n"),
    (GWC, "    if (getParam(\"BrokerName\", param) == 0)\n    {\n        _params.brokerName = strdup(param);\n    }\n", "    _params.brokerName = copyParam(this, \"BrokerName\");\n"),
    (GWC, "    if (getParam(\"ClientAuthentication\", param) == 0)\n    {\n        if (!strcasecmp(param, \"YES\"))\n        {\n            _params.clientAuthentication = true;\n        }\n    }\n", "    _params.clientAuthentication = isYes(this, \"ClientAuthentication\");\n"),
    (GWC, "    if (getParam(\"PredefinedTopic\", param) == 0)\n    {\n        if (!strcasecmp(param, \"YES\"))\n        {\n            _params.predefinedTopic = true;\n            if (getParam(\"PredefinedTopicList\", param) == 0)\n            {\n                _params.predefinedTopicFileName = strdup(param);\n            }\n        }\n    }\n",
     "    if ((_params.predefinedTopic = isYes(this, \"PredefinedTopic\")))\n    {\n        _params.predefinedTopicFileName = copyParam(this, \"PredefinedTopicList\");\n    }\n"),
    (GWC, "    _params.keepAlive = DEFAULT_KEEP_ALIVE_TIME;\n    if (getParam(\"KeepAlive\", param) == 0)\n    {\n        _params.keepAlive = atoi(param);\n    }\n", "    _params.keepAlive = getParam(\"KeepAlive\", param) == 0 ? (uint16_t) strtol(param, nullptr, 10) : DEFAULT_KEEP_ALIVE_TIME;\n"))
ref("conf-adapter-setup",
    (G + "MQTTSNGWAdapter.cpp", "    _isSecure = false;\n    if (_gateway->hasSecureConnection())\n    {\n        _isSecure = true;\n    }\n", "    _isSecure = _gateway->hasSecureConnection();\n"),
    (G + "MQTTSNGWAdapter.cpp", "    string nameSecure = string(adpterName) + \"-S\";\n", "    string nameSecure(adpterName);\n    nameSecure += \"-S\";\n"),
    (G + "MQTTSNGWQoSm1Proxy.cpp", "    if (_gateway->hasSecureConnection())\n    {\n        _isSecure = true;\n    }\n\n", ""),
    (G + "MQTTSNGWQoSm1Proxy.cpp", "    string name = string(gwName) + string(\"_QoS-1\");\n", "    string name = string(gwName).append(\"_QoS-1\");\n"))
ref("conf-options",
    (PRC, "            string config = string(optarg);\n            size_t pos = 0;\n            if ((pos = config.find_last_of(\"/\")) == string::npos)\n            {\n                _configFile = optarg;\n            }\n            else\n            {\n                _configFile = config.substr(pos + 1, config.size() - pos - 1);\n                _configDir = config.substr(0, pos + 1);\n            }\n",
     "            string config(optarg);\n            size_t slash = config.rfind('/');\n            if (slash != string::npos)\n            {\n                _configDir = config.substr(0, slash + 1);\n                config = config.substr(slash + 1);\n            }\n            _configFile = config;\n"))
ref("conf-order",
    (G + "MQTTSNGWAdapterManager.cpp", "    if (aggregate)\n    {\n        _aggregater->initialize(gwName);\n    }\n\n    if (qosM1)\n    {\n        _qosm1Proxy->initialize(gwName);\n    }\n\n    if (forwarder)\n    {\n        _forwarders->initialize(_gateway);\n    }\n",
     "    if (forwarder)\n    {\n        _forwarders->initialize(_gateway);\n    }\n    if (qosM1)\n    {\n        _qosm1Proxy->initialize(gwName);\n    }\n    if (aggregate)\n    {\n        _aggregater->initialize(gwName);\n    }\n"),
    (CL, "        int type = TRANSPEARENT_TYPE;\n        if (aggregate)\n        {\n            type = AGGREGATER_TYPE;\n        }\n        setClientList(type);\n        _authorize = true;\n", "        _authorize = true;\n        setClientList(aggregate ? AGGREGATER_TYPE : TRANSPEARENT_TYPE);\n"))

UDP, UDP6, XB, LR = [G + "linux/%s/SensorNetwork.cpp" % k for k in ("udp", "udp6", "xbee", "loralink")]

ref("sensor-recv-loop",
    (UDP, """    int rc = 0;
    if (poll(_pollFds, 2, 2000) <= 0)  // Timeout 2 seconds
    {
        return rc;
    }

    if (_pollFds[0].revents == POLLIN)
    {
        rc = recvfrom(_pollFds[0].fd, buf, len, 0, addr);
    }
    else if (_pollFds[1].revents == POLLIN)
    {
        rc = recvfrom(_pollFds[1].fd, buf, len, 0, addr);
    }
    return rc;
""", """    int ready = poll(_pollFds, sizeof(_pollFds) / sizeof(_pollFds[0]), 2000);  // Timeout 2 seconds

    for (int i = 0; ready > 0 && i < 2; i++)
    {
        if (_pollFds[i].revents & POLLIN)
        {
            return recvfrom(_pollFds[i].fd, buf, len, 0, addr);
        }
    }
    return 0;
"""),
    (UDP6, """    int rc = poll(_pollfds, 2, 2000);  // Timeout 2secs
    if (rc <= 0)
    {
        return 0;
    }

    for (int i = 0; i < 2; i++)
    {
        if (_pollfds[i].revents & POLLIN)
        {
            return recvfrom(_pollfds[i].fd, buf, len, 0, addr);
        }
    }
    return 0;
""", """    pollfd* p = NULL;
    if (poll(_pollfds, 2, 2000) > 0)  // Timeout 2secs
    {
        p = (_pollfds[0].revents & POLLIN) ? &_pollfds[0] : (_pollfds[1].revents & POLLIN) ? &_pollfds[1] : NULL;
    }
    return p ? recvfrom(p->fd, buf, len, 0, addr) : 0;
"""))
ref("sensor-open-helper",
    (UDP, "int UDPPort::open(const char *multicastIP", """static int bindTo(int sock, uint16_t port)
{
    sockaddr_in addr;
    memset(&addr, 0, sizeof(addr));
    addr.sin_family = AF_INET;
    addr.sin_port = htons(port);
    addr.sin_addr.s_addr = htonl(INADDR_ANY);
    return ::bind(sock, (sockaddr*) &addr, sizeof(addr));
}

int UDPPort::open(const char *multicastIP"""),
    (UDP, """    sockaddr_in addru;
    addru.sin_family = AF_INET;
    addru.sin_port = htons(uniPortNo);
    addru.sin_addr.s_addr = INADDR_ANY;

    if (::bind(sock, (sockaddr*) &addru, sizeof(addru)) < 0)
""", "    if (bindTo(sock, uniPortNo) != 0)\n"),
    (UDP, """    sockaddr_in addrm;
    addrm.sin_family = AF_INET;
    addrm.sin_port = htons(multiPortNo);
    addrm.sin_addr.s_addr = INADDR_ANY;

    if (::bind(sock, (sockaddr*) &addrm, sizeof(addrm)) < 0)
""", "    if (bindTo(sock, multiPortNo) != 0)\n"))
ref("sensor-open-order",
    (UDP, """    setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval));

    sockaddr_in addrm;
    addrm.sin_family = AF_INET;
    addrm.sin_port = htons(multiPortNo);
    addrm.sin_addr.s_addr = INADDR_ANY;
""", """    sockaddr_in addrm;
    addrm.sin_family = AF_INET;
    addrm.sin_port = htons(multiPortNo);
    addrm.sin_addr.s_addr = INADDR_ANY;
    setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval));
"""),
    (UDP, """    _multicastAddr.setAddress(inet_addr(multicastIP), htons(multiPortNo));

    return 0;
""", "    return 0;\n"),
    (UDP, "    ip_mreq mreq;\n", "    _multicastAddr.setAddress(inet_addr(multicastIP), htons(multiPortNo));\n    ip_mreq mreq;\n"))
ref("sensor-init-helper",
    (UDP, """    if (theProcess->getParam("MulticastPortNo", param) == 0)
    {
        multicastPortNo = atoi(param);
        _description += ":";
        _description += param;
    }
""", """    int rc = theProcess->getParam("MulticastPortNo", param);
    if (!rc)
    {
        _description += ":";
        _description += param;
        multicastPortNo = (uint16_t) atoi(param);
    }
"""),
    (UDP6, """    if (theProcess->getParam("MulticastIPv6If", param) == 0)
    {
        interface = param;
        _description += ", Interface: ";
        _description += param;
    }
    if (theProcess->getParam("MulticastHops", param) == 0)
    {
        hops = atoi(param);
        _description += ", Hops:";
        _description += param;
    }
""", """    if (theProcess->getParam("MulticastHops", param) == 0)
    {
        hops = atoi(param);
        _description += ", Hops:";
        _description += param;
    }
    if (theProcess->getParam("MulticastIPv6If", param) == 0)
    {
        interface = string(param);
        _description += ", Interface: " + interface;
    }
"""))
ref("sensor-address",
    (UDP, "	return ((this->_portNo == addr->_portNo) && (this->_IpAddr == addr->_IpAddr));\n", "	if (_IpAddr != addr->getIpAddress())\n	{\n		return false;\n	}\n	return !(_portNo != addr->getPortNo());\n"),
    (UDP, "	this->_portNo = addr._portNo;\n	this->_IpAddr = addr._IpAddr;\n", "	setAddress(addr.getIpAddress(), addr.getPortNo());\n"),
    (UDP, '	size_t pos = ip_port->find_first_of(":");\n', "	size_t pos = ip_port->find(':');\n"),
    (UDP, """	portNo = atoi(port.c_str());
	if (portNo <= 0 || portNo > 65535 || (_IpAddr = inet_addr(ip.c_str())) == INADDR_NONE)
	{
		return -1;
	}
	_portNo = htons(portNo);
	return 0;
""", """	portNo = atoi(port.c_str());
	if (portNo > 0 && portNo <= 65535)
	{
		_IpAddr = inet_addr(ip.c_str());
		if (_IpAddr != INADDR_NONE)
		{
			_portNo = htons((uint16_t) portNo);
			return 0;
		}
	}
	return -1;
"""),
    (UDP6, """    return (this->_IpAddr.sin6_port == addr->_IpAddr.sin6_port)
            && (memcmp(this->_IpAddr.sin6_addr.s6_addr, addr->_IpAddr.sin6_addr.s6_addr,
                    sizeof(this->_IpAddr.sin6_addr.s6_addr)) == 0);
""", """    if (getPortNo() != addr->getPortNo())
    {
        return false;
    }
    for (int i = 0; i < 16; i++)
    {
        if (_IpAddr.sin6_addr.s6_addr[i] != addr->_IpAddr.sin6_addr.s6_addr[i])
        {
            return false;
        }
    }
    return true;
"""),
    (UDP6, "    memcpy(&this->_IpAddr, &addr._IpAddr, sizeof(this->_IpAddr));\n", "    this->_IpAddr = addr._IpAddr;\n"))
ref("sensor-send",
    (UDP, """    sockaddr_in dest;
    dest.sin_family = AF_INET;
    dest.sin_port = addr->getPortNo();
    dest.sin_addr.s_addr = addr->getIpAddress();

    int status = ::sendto(_pollFds[0].fd, buf, length, 0, (const sockaddr*) &dest, sizeof(dest));
""", """    int sock = _pollFds[0].fd;
    sockaddr_in dest = {};
    dest.sin_family = AF_INET;
    dest.sin_addr.s_addr = addr->getIpAddress();
    dest.sin_port = addr->getPortNo();
    socklen_t size = sizeof(dest);

    ssize_t status = ::sendto(sock, buf, length, MSG_NOSIGNAL, (const sockaddr*) &dest, size);
"""),
    (UDP6, """    sockaddr_in6 dest;
    memset(&dest, 0, sizeof(dest));
    dest.sin6_family = AF_INET6;
    dest.sin6_port = _grpAddr.getPortNo();
    memcpy(dest.sin6_addr.s6_addr, (const void*) &_grpAddr.getIpAddress()->sin6_addr, sizeof(in6_addr));
""", "    sockaddr_in6 dest = *_grpAddr.getIpAddress();\n    dest.sin6_flowinfo = 0;\n    dest.sin6_family = AF_INET6;\n"))

ref("radio-xbee-frame",
    (XB, "int XBee::send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr){\n", "static uint8_t sum(const uint8_t* p, int n)\n{\n    uint8_t s = 0;\n    while (n-- > 0)\n    {\n        s += *p++;\n    }\n    return s;\n}\n\nint XBee::send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr){\n"),
    (XB, """	for ( int i = 0; i < 8; i++)    // Address64
	{
		send(addr->_address64[i]);
		checksum += addr->_address64[i];
	}
	for ( int i = 0; i < 2; i++)    // Address16
	{
		send(addr->_address16[i]);
		checksum += addr->_address16[i];
	}
""", """	for ( int i = 0; i < 10; i++)    // Address64, Address16
	{
		send(i < 8 ? addr->_address64[i] : addr->_address16[i - 8]);
	}
	checksum += sum(addr->_address64, 8);
	checksum += sum(addr->_address16, 2);
"""),
    (XB, """    for ( uint16_t i = 0; i < pLen; i++ ){
        send(payload[i]);     // Payload
        checksum += payload[i];
    }

    checksum = 0xff - checksum;
""", """    const uint8_t* end = payload + pLen;
    for ( const uint8_t* p = payload; p != end; p++ ){
        send(*p);
    }
    checksum = ~(checksum + sum(payload, pLen));
"""),
    (XB, """  if(_apiMode == 2 && (c == START_BYTE || c == ESCAPE || c == XON || c == XOFF)){
	  _serialPort->send(ESCAPE);
	  _serialPort->send(c ^ 0x20);
  }else{
	  _serialPort->send(c);
  }
""", """  bool special = false;
  switch (c)
  {
  case START_BYTE:
  case ESCAPE:
  case XON:
  case XOFF:
	  special = _apiMode == 2;
	  break;
  default:
	  break;
  }
  if (special)
  {
	  _serialPort->send(ESCAPE);
	  c ^= 0x20;
  }
  _serialPort->send(c);
"""))
ref("radio-xbee-read",
    (XB, """	 while ( _serialPort->recv(&buf) )
	 {
		 if ( buf == START_BYTE)
		 {
			pos = 1;
			 D_NWSTACK("\\r\\n===> Recv:    ");
			 break;
		 }
	 }

	if ( pos == 0 )
	{
		goto errexit;
	}
""", """	do
	{
		if ( !_serialPort->recv(&buf) )
		{
			goto errexit;
		}
	} while ( buf != START_BYTE );
"""),
    (XB, """    while ( len-- )
    {
    	if ( recv(&buf) < 0 )
    	{
    		goto errexit;
    	}
    	recvData[pos++] = buf;
    	checksum += buf;
    }
""", """    for ( pos = 0; pos < len; pos++ )
    {
    	if ( recv(recvData + pos) != 0 )
    	{
    		goto errexit;
    	}
    	checksum += recvData[pos];
    }
"""),
    (XB, "    if ( (0xff - checksum ) == buf ){", "    if ( (uint8_t)(checksum + buf) == 0xff ){"))
ref("radio-baud-table",
    (LR, """	switch (baudrate)
	{
	case 9600:
		rate = B9600;
		break;
	case 19200:
		rate = B19200;
		break;
	case 38400:
		rate = B38400;
		break;
	case 57600:
		rate = B57600;
		break;
	case 115200:
		rate = B115200;
		break;
	default:
		return -1;
	}
""", """	static const int rates[][2] = { { 9600, B9600 }, { 19200, B19200 }, { 38400, B38400 }, { 57600, B57600 }, { 115200, B115200 } };
	int k = 0;
	while (k < 5 && rates[k][0] != baudrate)
	{
		k++;
	}
	if (k == 5)
	{
		return -1;
	}
	rate = rates[k][1];
"""))
ref("radio-lora-frame",
    (LR, """    buf[0] = (len >> 8) & 0xff;
    buf[1] = len & 0xff;
    send(buf[0]);
    send(buf[1]);
""", """    buf[0] = len / 256;
    buf[1] = len % 256;
    for (int i = 0; i < 2; i++)
    {
        send(buf[i]);
    }
"""),
    (LR, """    if ( _respCd == LORALINK_NO_FREE_CH )
    {
        D_LRSTACK(" Channel isn't free\\r\\n");
    	return -1;
    }
    else if ( _respCd != LORALINK_ACK )
	{
        D_LRSTACK(" Not Acknowleged\\r\\n");
		return -1;
	}
    return (int)pLen;
""", """    return _respCd == LORALINK_ACK ? (int)pLen : -1;
"""),
    (LR, """  if( (c == START_BYTE || c == ESCAPE || c == XON || c == XOFF)){
	  _serialPortTx->send(ESCAPE);
	  _serialPortTx->send(c ^ PAD);
  }else{
	  _serialPortTx->send(c);
  }
""", """  static const uint8_t special[] = { START_BYTE, ESCAPE, XON, XOFF };
  for (unsigned i = 0; i < sizeof(special); i++)
  {
	  if (c == special[i])
	  {
		  _serialPortTx->send(ESCAPE);
		  _serialPortTx->send(c ^ PAD);
		  return;
	  }
  }
  _serialPortTx->send(c);
"""))
ref("radio-lora-read",
    (LR, "				para->Error = ( (0xff - para->checksum) != byte );\n", "				para->Error = ( ((para->checksum + byte) & 0xff) != 0xff );\n"),
    (LR, """		case 4:
			val = (uint16_t)byte;
			api->Rssi = val << 8;
			para->checksum += byte;
			break;

		case 5:
			api->Rssi += byte;
			para->checksum += byte;
			break;
""", """		case 4:
		case 5:
			api->Rssi = para->apipos == 4 ? byte << 8 : api->Rssi + byte;
			para->checksum += byte;
			break;
"""),
    (LR, """	while ( true )
	{
		if ( ( readApiFrame( &_loRaLinkApi, &_loRaLinkPara) == true ) && (_loRaLinkPara.Available == true) && ( _loRaLinkPara.Error == false ) )
		{
""", """	{
		if ( readApiFrame( &_loRaLinkApi, &_loRaLinkPara) && _loRaLinkPara.Available && !_loRaLinkPara.Error )
		{
"""))

AD = G + "MQTTSNGWAdapter.cpp"
AM = G + "MQTTSNGWAdapterManager.cpp"
TI = G + "linux/Timer.cpp"
ref("proxy-helpers",
    (AD, "void Proxy::checkConnection(Client* client)\n{\n", "static void postToGateway(Gateway* gw, Client* client, MQTTSNPacket* packet)\n{\n    Event* ev = new Event();\n    ev->setClientRecvEvent(client, packet);\n    gw->getPacketEventQue()->post(ev);\n}\n\nvoid Proxy::checkConnection(Client* client)\n{\n"),
    (AD, "        Event* ev = new Event();\n        ev->setClientRecvEvent(client, packet);\n        _gateway->getPacketEventQue()->post(ev);\n", "        postToGateway(_gateway, client, packet);\n", 2))
ref("proxy-early-return",
    (AD, "        if (++_retryCnt > PROXY_MAX_RETRY_CNT)\n        {\n            client->disconnected();\n        }\n        resetPingTimer();\n    }\n}", "        resetPingTimer();\n        _retryCnt++;\n        if (_retryCnt <= PROXY_MAX_RETRY_CNT)\n        {\n            return;\n        }\n        client->disconnected();\n    }\n}"),
    (AD, "    else if ((client->isActive() && _keepAliveTimer.isTimeup()) || (_isWaitingResp && _responseTimer.isTimeup()))", "    else if ((_isWaitingResp && _responseTimer.isTimeup()) || (client->isActive() && _keepAliveTimer.isTimeup()))"))
ref("proxy-connect-order",
    (AD, "        client->connectSended();\n        _responseTimer.start(PROXY_RESPONSE_DURATION * 1000UL);\n        MQTTSNPacket_connectData", "        MQTTSNPacket_connectData"),
    (AD, "        packet->setCONNECT(&options);\n        Event* ev = new Event();\n        ev->setClientRecvEvent(client, packet);\n", "        packet->setCONNECT(&options);\n        Event* ev = new Event();\n        ev->setClientRecvEvent(client, packet);\n        _responseTimer.start(PROXY_RESPONSE_DURATION * 1000UL);\n        client->connectSended();\n"))
ref("proxy-recv-switch",
    (AD, "    if (packet->getType() == MQTTSN_CONNACK)\n    {\n        if (packet->isAccepted())\n        {\n            _responseTimer.stop();\n            _retryCnt = 0;\n            resetPingTimer();\n            sendSuspendedPacket();\n        }\n    }\n    else if (packet->getType() == MQTTSN_PINGRESP)\n    {\n        _isWaitingResp = false;\n        _responseTimer.stop();\n        _retryCnt = 0;\n        resetPingTimer();\n    }\n    else if (packet->getType() == MQTTSN_DISCONNECT)\n    {\n        // blank\n    }\n",
     "    int type = packet->getType();\n    bool accepted = type == MQTTSN_CONNACK && packet->isAccepted();\n    if (!accepted && type != MQTTSN_PINGRESP)\n    {\n        return;\n    }\n    resetPingTimer();\n    _responseTimer.stop();\n    _retryCnt = 0;\n    if (accepted)\n    {\n        sendSuspendedPacket();\n    }\n    else\n    {\n        _isWaitingResp = false;\n    }\n"))
ref("proxy-suspended-for",
    (AD, "    while (_suspendedPacketEventQue->size())\n    {\n        Event* ev = _suspendedPacketEventQue->wait();\n        _gateway->getPacketEventQue()->post(ev);\n    }", "    EventQue* to = _gateway->getPacketEventQue();\n    for (int n = _suspendedPacketEventQue->size(); n > 0; n--)\n    {\n        to->post(_suspendedPacketEventQue->wait());\n    }"))
ref("proxy-adapter-ternary",
    (AD, "    if (client->isSecureNetwork())\n    {\n        _proxySecure->savePacket(client, packet);\n    }\n    else\n    {\n        _proxy->savePacket(client, packet);\n    }", "    Proxy* proxy = client->isSecureNetwork() ? _proxySecure : _proxy;\n    proxy->savePacket(client, packet);"),
    (AD, "    if (secure)\n    {\n        _proxySecure->resetPingTimer();\n    }\n    else\n    {\n        _proxy->resetPingTimer();\n    }", "    (secure ? _proxySecure : _proxy)->resetPingTimer();"),
    (AD, "    if (!client)\n    {\n        return nullptr;\n    }\n    else if (client->isQoSm1())\n    {\n        return client->getClientId();\n    }\n    else\n    {\n        return nullptr;\n    }", "    return client ? client->getClientId() : nullptr;"))
ref("proxy-setup-loop",
    (AD, "    Client* client = _gateway->getClientList()->createClient(0, &id, true, false, TRANSPEARENT_TYPE);\n    if (client == nullptr)\n    {\n        throw Exception(\"Adapter::setup: MaxNumberOfClients is too small.\", 0);\n    }\n    setClient(client, false);\n    client->setAdapterType(adapterType);\n\n    client = _gateway->getClientList()->createClient(0, &idSecure, true, true,\n    TRANSPEARENT_TYPE);\n    if (client == nullptr)\n    {\n        throw Exception(\"Adapter::setup: MaxNumberOfClients is too small.\", 0);\n    }\n    setClient(client, true);\n    client->setAdapterType(adapterType);",
     "    for (int secure = 0; secure < 2; secure++)\n    {\n        Client* client = _gateway->getClientList()->createClient(0, secure ? &idSecure : &id, true, secure != 0, TRANSPEARENT_TYPE);\n        if (!client)\n        {\n            throw Exception(\"Adapter::setup: MaxNumberOfClients is too small.\", 0);\n        }\n        client->setAdapterType(adapterType);\n        setClient(client, secure != 0);\n    }"),
    (AD, "    _isSecure = false;\n    if (_gateway->hasSecureConnection())\n    {\n        _isSecure = true;\n    }\n", "    _isSecure = _gateway->hasSecureConnection();\n"))
ref("proxy-setup-append",
    (AD, "    string nameSecure = string(adpterName) + \"-S\";", "    string nameSecure(adpterName);\n    nameSecure += \"-S\";"),
    (G + "MQTTSNGWQoSm1Proxy.cpp", "    string name = string(gwName) + string(\"_QoS-1\");", "    string name(gwName);\n    name.append(\"_QoS-1\");"))
ref("proxy-timer-usec",
    (TI, "		secs = (curTime.tv_sec - _startTime.tv_sec) * 1000;\n		usecs = (curTime.tv_usec - _startTime.tv_usec) / 1000.0;\n		return ((secs + usecs) > (long) msecs);", "		secs = curTime.tv_sec - _startTime.tv_sec;\n		usecs = curTime.tv_usec - _startTime.tv_usec;\n		return secs * 1000000L + usecs >= ((long) msecs + 1) * 1000L;"))
ref("proxy-manager-switch",
    (AM, "    if (client->isQoSm1())\n    {\n        newClient = _qosm1Proxy->getAdapterClient(client);\n        _qosm1Proxy->resetPingTimer(secure);\n    }\n    else if (client->isAggregated())\n    {\n        newClient = _aggregater->getAdapterClient(client);\n        _aggregater->resetPingTimer(secure);\n    }\n    else if (client->isQoSm1Proxy())\n    {\n        _qosm1Proxy->resetPingTimer(secure);\n    }\n    else if (client->isAggregater())\n    {\n        _aggregater->resetPingTimer(secure);\n    }\n",
     "    Adapter* adapter = nullptr;\n    if (client->isQoSm1() || client->isQoSm1Proxy())\n    {\n        adapter = _qosm1Proxy;\n    }\n    else if (client->isAggregated() || client->isAggregater())\n    {\n        adapter = _aggregater;\n    }\n    if (adapter)\n    {\n        adapter->resetPingTimer(secure);\n        if (!client->isAdapter())\n        {\n            newClient = adapter->getAdapterClient(client);\n        }\n    }\n"),
    (AM, "    if (!_aggregater->isActive() || client->isQoSm1() || client->isAggregater() || client->isQoSm1Proxy())\n    {\n        return false;\n    }\n    else\n    {\n        return true;\n    }", "    return _aggregater->isActive() && !client->isQoSm1() && !client->isAdapter();"))

RUN_CONF = """
import sys, os; sys.path.insert(0, %r)
import report, conf, sensor, radio, proxy, build
n, bad = 0, []
REG = {"conf": conf.REG, "sensor": sensor.REG, "radio": radio.REG, "proxy": proxy.REG}[os.environ["SA_KIND"]]
try:
    for p in REG:
        r = report.Report(p, "quick")
        REG[p](r)
        n += len(r.obl)
        bad += [(p, k, o["detail"][:120], o["where"][:80]) for k, o in r.obl.items() if not o["ok"]]
    print("RESULT", len(bad), bad[:4] or n)
except build.AnalysisBroken as e:
    print("RESULT broken", str(e)[:600])
""" % (V + "/sa")

MI, AT, TP, AC = G + "MQTTSNGWMessageIdTable.cpp", G + "MQTTSNGWAggregateTopicTable.cpp", G + "MQTTSNGWTopic.cpp", G + "MQTTSNAggregateConnectionHandler.cpp"
ref("agg-find-for", (MI, "    MessageIdElement* p = _head;\n    while (p)\n    {\n        if (p->_msgId == msgId)\n        {\n            break;\n        }\n        p = p->_next;\n    }\n    return p;\n", "    for (MessageIdElement* e = _head; e != nullptr; e = e->_next)\n    {\n        if (e->_msgId == msgId)\n            return e;\n    }\n    return nullptr;\n"),
    (MI, "    MessageIdElement* p = _head;\n    while (p)\n    {\n        if (p->_clientMsgId == clientMsgId && p->_client == client)\n        {\n            break;\n        }\n        p = p->_next;\n    }\n    return p;\n", "    MessageIdElement* p = _tail;\n    while (p && !(p->_client == client && p->_clientMsgId == clientMsgId))\n    {\n        p = p->_prev;\n    }\n    return p;\n"))
ref("agg-clear-short", (MI, "    if (elm->_prev == nullptr)\n    {\n        _head = elm->_next;\n        if (_head == nullptr)\n        {\n            _tail = nullptr;\n        }\n        else\n        {\n            _head->_prev = nullptr;\n        }\n        delete elm;\n        _cnt--;\n        return;\n    }\n    else\n    {\n        elm->_prev->_next = elm->_next;\n        if (elm->_next == nullptr)\n        {\n            _tail = elm->_prev;\n        }\n        else\n        {\n            elm->_next->_prev = elm->_prev;\n        }\n        delete elm;\n        _cnt--;\n        return;\n    }\n",
     "    MessageIdElement* before = elm->_prev;\n    MessageIdElement* behind = elm->_next;\n    (before ? before->_next : _head) = behind;\n    (behind ? behind->_prev : _tail) = before;\n    _cnt--;\n    delete elm;\n"))
ref("agg-id-add", (MI, "    MessageIdElement* elm = new MessageIdElement(0, client, clientMsgId);\n    if (elm == nullptr)\n    {\n        return nullptr;\n    }\n    _mutex.lock();\n    if (_head == nullptr)\n    {\n        elm->_msgId = aggregater->msgId();\n        _head = elm;\n        _tail = elm;\n        _cnt++;\n    }\n    else\n    {\n        MessageIdElement* p = find(client, clientMsgId);\n        if (p == nullptr)\n        {\n            do\n            {\n                elm->_msgId = aggregater->msgId();\n            } while (find(elm->_msgId) != nullptr);   /* still in use after the ids have wrapped */\n            p = _tail;\n            _tail = elm;\n            elm->_prev = p;\n            p->_next = elm;\n            _cnt++;\n        }\n        else\n        {\n            /* the client uses the id of an unfinished exchange again */\n            delete elm;\n            elm = p;\n        }\n    }\n    _mutex.unlock();\n    return elm;\n",
     "    _mutex.lock();\n    MessageIdElement* elm = find(client, clientMsgId);\n    if (elm == nullptr)\n    {\n        uint16_t id = aggregater->msgId();\n        while (find(id))\n        {\n            id = aggregater->msgId();\n        }\n        elm = new MessageIdElement(id, client, clientMsgId);\n        elm->_prev = _tail;\n        if (_tail)\n        {\n            _tail->_next = elm;\n        }\n        else\n        {\n            _head = elm;\n        }\n        _tail = elm;\n        ++_cnt;\n    }\n    _mutex.unlock();\n    return elm;\n"))
ref("agg-get-early", (MI, "    Client* clt = nullptr;\n    *clientMsgId = 0;\n    _mutex.lock();\n    MessageIdElement* p = find(msgId);\n    if (p != nullptr)\n    {\n        clt = p->_client;\n        *clientMsgId = p->_clientMsgId;\n        if (!keep)\n        {\n            clear(p);\n        }\n    }\n    _mutex.unlock();\n    return clt;\n",
     "    Client* clt = nullptr;\n    uint16_t id = 0;\n    _mutex.lock();\n    if (MessageIdElement* p = find(msgId))\n    {\n        id = p->_clientMsgId;\n        clt = p->_client;\n        if (!keep)\n        {\n            erase(msgId);\n        }\n    }\n    _mutex.unlock();\n    *clientMsgId = id;\n    return clt;\n"),
    (MI, "    _mutex.lock();\n    MessageIdElement* p = find(msgId);\n    clear(p);\n    _mutex.unlock();\n", "    _mutex.lock();\n    clear(find(msgId));\n    _mutex.unlock();\n"))
ref("agg-erase-helper", (AT, "void AggregateTopicElement::eraseClient(Client* client)\n{\n", "template<class E>\nstatic void unlink(E* p, E*& head, E*& tail)\n{\n    if (p->_prev == nullptr)\n    {\n        head = p->_next;\n    }\n    else\n    {\n        p->_prev->_next = p->_next;\n    }\n    if (p->_next == nullptr)\n    {\n        tail = p->_prev;\n    }\n    else\n    {\n        p->_next->_prev = p->_prev;\n    }\n}\n\nvoid AggregateTopicElement::eraseClient(Client* client)\n{\n"),
    (AT, "        if (p->_prev == nullptr)    // head element\n        {\n            _head = p->_next;\n            if (p->_next == nullptr)   // head & only one\n            {\n                _tail = nullptr;\n            }\n            else\n            {\n                p->_next->_prev = nullptr;  // head & midle\n            }\n        }\n        else if (p->_next != nullptr)  // middle\n        {\n            p->_prev->_next = p->_next;\n            p->_next->_prev = p->_prev;\n        }\n        else    // tail\n        {\n            p->_prev->_next = nullptr;\n            _tail = p->_prev;\n        }\n", "        ClientTopicElement*& head = _head;\n        if (p == head)\n        {\n            head = p->_next;\n        }\n        else\n        {\n            p->_prev->_next = p->_next;\n        }\n        if (p == _tail)\n        {\n            _tail = p->_prev;\n        }\n        else\n        {\n            p->_next->_prev = p->_prev;\n        }\n"),
    (AT, "template<class E>\nstatic void unlink(E* p, E*& head, E*& tail)\n{\n    if (p->_prev == nullptr)\n    {\n        head = p->_next;\n    }\n    else\n    {\n        p->_prev->_next = p->_next;\n    }\n    if (p->_next == nullptr)\n    {\n        tail = p->_prev;\n    }\n    else\n    {\n        p->_next->_prev = p->_prev;\n    }\n}\n\n", ""))
ref("agg-subscriber-add", (AT, "    ClientTopicElement* elm = new ClientTopicElement(client);\n    if (elm == nullptr)\n    {\n        return nullptr;\n    }\n\n    _mutex.lock();\n\n    if (_head == nullptr)\n    {\n        _head = elm;\n        _tail = elm;\n    }\n    else\n    {\n        ClientTopicElement* p = find(client);\n        if (p == nullptr)\n        {\n            p = _tail;\n            _tail = elm;\n            elm->_prev = p;\n            p->_next = elm;\n        }\n        else\n        {\n            delete elm;\n            elm = p;\n        }\n    }\n    _mutex.unlock();\n    return elm;\n",
     "    _mutex.lock();\n    ClientTopicElement* elm = find(client);\n    if (!elm)\n    {\n        elm = new ClientTopicElement(client);\n        if (_tail)\n        {\n            elm->_prev = _tail;\n            _tail->_next = elm;\n        }\n        else\n        {\n            _head = elm;\n        }\n        _tail = elm;\n    }\n    _mutex.unlock();\n    return elm;\n"),
    (AT, "        if (elm->find(client) == nullptr)\n        {\n            elm->add(client);\n        }\n", "        elm->add(client);\n"))
ref("agg-filter-early", (AT, "        Topic* newTopic = topic->duplicate();\n        elm = new AggregateTopicElement(newTopic, client);\n        if (_head == nullptr)\n        {\n            _head = elm;\n            _tail = elm;\n        }\n        else\n        {\n            elm->_prev = _tail;\n            _tail->_next = elm;\n            _tail = elm;\n        }\n", "        elm = new AggregateTopicElement(topic->duplicate(), client);\n        AggregateTopicElement* last = _tail;\n        _tail = elm;\n        elm->_prev = last;\n        if (last == nullptr)\n        {\n            _head = elm;\n        }\n        else\n        {\n            last->_next = elm;\n        }\n"),
    (AT, "        if (elm->_topic->_topicName->compare(*topic->_topicName) == 0)\n        {\n            break;\n        }\n        elm = elm->_next;\n    }\n    return elm;\n", "        if (*elm->_topic->_topicName == *topic->_topicName)\n        {\n            return elm;\n        }\n        elm = elm->_next;\n    }\n    return nullptr;\n"),
    (AT, "    elm = find(topic);\n\n    if (elm != nullptr)\n    {\n        elm->eraseClient(client);\n\n        if (elm->_head == nullptr)\n        {\n            erase(elm);\n        }\n    }\n    _mutex.unlock();\n    return;\n", "    elm = find(topic);\n    if (elm)\n    {\n        elm->eraseClient(client);\n        bool unused = elm->getFirstClientTopicElement() == nullptr;\n        if (unused)\n        {\n            erase(elm);\n        }\n    }\n    _mutex.unlock();\n"))
ref("agg-distribute-nested", (G + "MQTTGWPublishHandler.cpp", "    AggregateTopicElement* elmTopic = aggregater->findTopic(&topic);\n    ClientTopicElement* elm = elmTopic != nullptr ? elmTopic->getFirstClientTopicElement() : nullptr;\n\n    while (elm != nullptr)\n    {\n        Client* devClient", "    for (AggregateTopicElement* filter = aggregater->findTopic(&topic); filter; filter = aggregater->findNextTopic(filter, &topic))\n    for (ClientTopicElement* elm = filter->getFirstClientTopicElement(); elm; elm = filter->getNextClientTopicElement(elm))\n    {\n        Client* devClient"),
    (G + "MQTTGWPublishHandler.cpp", "\n        elm = elm->getNextClientElement();\n        if (elm == nullptr)\n        {\n            /* other filters may match, too */\n            elmTopic = aggregater->findNextTopic(elmTopic, &topic);\n            if (elmTopic != nullptr)\n            {\n                elm = elmTopic->getFirstClientTopicElement();\n            }\n        }\n", ""))
ref("agg-distribute-ack-first", (G + "MQTTGWPublishHandler.cpp", "    string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted\n", "    switch (pub.header.bits.qos)\n    {\n    case 2:\n        replyACK(client, &pub, PUBREC);\n        break;\n    case 1:\n        replyACK(client, &pub, PUBACK);\n        break;\n    default:\n        break;\n    }\n\n    string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted\n"),
    (G + "MQTTGWPublishHandler.cpp", "\n    /* the broker waits for one acknowledgement only */\n    if (pub.header.bits.qos == 1)\n    {\n        replyACK(client, &pub, PUBACK);\n    }\n    else if (pub.header.bits.qos == 2)\n    {\n        replyACK(client, &pub, PUBREC);\n    }\n", ""))
ref("agg-connack-helper", (AC, "/*\n *  CONNECT\n */\nvoid", "static void accept(Gateway* gw, Client* client)\n{\n    Event* ev = new Event();\n    MQTTSNPacket* ack = new MQTTSNPacket();\n    ack->setCONNACK(MQTTSN_RC_ACCEPTED);\n    ev->setClientSendEvent(client, ack);\n    gw->getClientSendQue()->post(ev);\n}\n\n/*\n *  CONNECT\n */\nvoid"),
    (AC, "        MQTTSNPacket* packet = new MQTTSNPacket();\n        packet->setCONNACK(MQTTSN_RC_ACCEPTED);\n        Event* ev = new Event();\n        ev->setClientSendEvent(client, packet);\n        _gateway->getClientSendQue()->post(ev);\n", "        accept(_gateway, client);\n", 3))
ref("agg-clean-order", (AC, "        client->clearWaitedPubTopicId();\n        client->clearWaitedSubTopicId();\n\n        /* renew the TopicList */\n        if (topics)\n        {\n            Topic* tp = topics->getFirstTopic();\n            while (tp != nullptr)\n            {\n                if (tp->getType() == MQTTSN_TOPIC_TYPE_NORMAL)\n                {\n                    _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(tp, client);\n                }\n                tp = topics->getNextTopic(tp);\n            }\n            topics->eraseNormal();\n        }\n", "        if (topics != nullptr)\n        {\n            Aggregater* aggregater = _gateway->getAdapterManager()->getAggregater();\n            for (Topic* tp = topics->getFirstTopic(); tp; tp = topics->getNextTopic(tp))\n            {\n                if (tp->getType() != MQTTSN_TOPIC_TYPE_NORMAL)\n                {\n                    continue;\n                }\n                aggregater->removeAggregateTopic(tp, client);\n            }\n            topics->eraseNormal();\n        }\n        client->clearWaitedSubTopicId();\n        client->clearWaitedPubTopicId();\n"))
ref("agg-stored-for", (AC, "    MQTTGWPacket* msg = nullptr;\n\n    while ((msg = client->getClientSleepPacket()) != nullptr)\n    {\n        client->deleteFirstClientSleepPacket(); // pop the que to delete element.\n\n        Event* ev = new Event();\n", "    for (MQTTGWPacket* msg = client->getClientSleepPacket(); msg != nullptr; msg = client->getClientSleepPacket())\n    {\n        Event* ev = new Event();\n        client->deleteFirstClientSleepPacket();\n"))
ref("agg-publish-id", (G + "MQTTSNGWPublishHandler.cpp", "            if (packet->isDuplicate())\n            {\n                msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());\n            }\n            if (msgId == 0)\n            {\n                msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());\n            }\n", "            Aggregater* aggregater = _gateway->getAdapterManager()->getAggregater();\n            uint16_t own = packet->getMsgId();\n            msgId = packet->isDuplicate() ? aggregater->getMsgId(client, own) : 0;\n            if (!msgId)\n            {\n                msgId = aggregater->addMessageIdTable(client, own);\n            }\n"))
ref("agg-ack-helper", (G + "MQTTGWSubscribeHandler.cpp", "void MQTTGWSubscribeHandler::handleAggregateSuback(", "static Client* translate(Gateway* gw, MQTTGWPacket* packet)\n{\n    uint16_t id = 0;\n    Client* c = gw->getAdapterManager()->getAggregater()->convertClient(packet->getMsgId(), &id);\n    if (c)\n    {\n        packet->setMsgId(id);\n    }\n    return c;\n}\n\nvoid MQTTGWSubscribeHandler::handleAggregateSuback("),
    (G + "MQTTGWSubscribeHandler.cpp", "    uint16_t msgId = packet->getMsgId();\n    uint16_t clientMsgId = 0;\n    Client* newClient = _gateway->getAdapterManager()->getAggregater()->convertClient(msgId, &clientMsgId);\n    if (newClient != nullptr)\n    {\n        packet->setMsgId((int) clientMsgId);\n", "    Client* newClient = translate(_gateway, packet);\n    if (newClient)\n    {\n", 2))
BODY = open("/repo/" + TP).read()
BODY = BODY[BODY.index("bool Topic::isMatch"):]
BODY = BODY[:BODY.index("\n}\n") + 3]
ref("match-recursive", (TP, BODY, """static bool matchLevels(const string& filter, const string& name)
{
    if (filter == "#")
    {
        return true;
    }
    size_t f = filter.find('/');
    size_t n = name.find('/');
    string level = filter.substr(0, f);
    if (level != "+" && level != name.substr(0, n))
    {
        return false;
    }
    if (f == string::npos)
    {
        return n == string::npos;
    }
    string rest = filter.substr(f + 1);
    if (n == string::npos)
    {
        return rest == "#";
    }
    return matchLevels(rest, name.substr(n + 1));
}

bool Topic::isMatch(string* topicName)
{
    return matchLevels(*_topicName, *topicName);
}
"""))
ref("match-chars", (TP, BODY, """bool Topic::isMatch(string* topicName)
{
    const char* f = _topicName->c_str();
    const char* n = topicName->c_str();
    for (;;)
    {
        if (f[0] == '#' && f[1] == 0)
        {
            return true;
        }
        if (f[0] == '+' && (f[1] == 0 || f[1] == '/'))
        {
            f++;
            while (*n && *n != '/')
            {
                n++;
            }
        }
        else
        {
            while (*f && *f != '/' && *f == *n)
            {
                f++;
                n++;
            }
        }
        if (*f == 0)
        {
            return *n == 0;
        }
        if (*f != '/')
        {
            return false;
        }
        if (*n == 0)
        {
            return strcmp(f, "/#") == 0;
        }
        if (*n != '/')
        {
            return false;
        }
        f++;
        n++;
    }
}
"""))
ref("match-index", (TP, BODY, """bool Topic::isMatch(string* topicName)
{
    const string& filter = *_topicName;
    const string& name = *topicName;
    size_t f = 0;
    size_t n = 0;
    while (f < filter.size() && n < name.size())
    {
        if (filter[f] == '#')
        {
            return true;
        }
        if (filter[f] == '+')
        {
            f++;
            while (n < name.size() && name[n] != '/')
            {
                n++;
            }
        }
        else if (filter[f] == name[n])
        {
            f++;
            n++;
        }
        else
        {
            return false;
        }
    }
    if (n < name.size())
    {
        return f < filter.size() && filter[f] == '#';
    }
    string rest = filter.substr(f);
    bool level = n == 0 || name[n - 1] == '/';
    return rest.empty() || rest == "/#" || (level && (rest == "#" || rest == "+" || rest == "+/#"));
}
"""))
ref("match-merged", (TP, "        string subtopic = topicName->substr(pos);\n            string subtopict = _topicName->substr(tpos);\n            if (subtopict == wildcard || subtopict == wildcards)\n            {\n                return true;\n            }\n            else if (subtopic == subtopict)\n            {\n                return true;\n            }\n            else\n            {\n                return false;\n            }\n", "        string subtopict = _topicName->substr(tpos);\n            return subtopict == wildcard || subtopict == wildcards || topicName->compare(pos, string::npos, subtopict) == 0;\n"),
    (TP, "                if ((tpos = tloc + 1) > tlen)\n                {\n                    return false;\n                }\n\n                pos = loc + 1;\n", "                tpos = tloc + 1;\n                pos = loc + 1;\n"),
    (TP, "                if ((tpos = tloc + 1) > tlen)\n                {\n                    pos = loc + 1;\n                    loc = topicName->find('/', pos);\n                    if (loc == string::npos)\n                    {\n                        return true;\n                    }\n                    else\n                    {\n                        return false;\n                    }\n                }\n                pos = loc + 1;\n", "                tpos = tloc + 1;\n                pos = ++loc;\n"))
ref("match-streams", (TP, BODY, """static std::vector<string> levels(const string& text)
{
    std::vector<string> v;
    size_t at = 0;
    size_t slash;
    while ((slash = text.find('/', at)) != string::npos)
    {
        v.push_back(text.substr(at, slash - at));
        at = slash + 1;
    }
    v.push_back(text.substr(at));
    return v;
}

bool Topic::isMatch(string* topicName)
{
    std::vector<string> f = levels(*_topicName);
    std::vector<string> n = levels(*topicName);
    for (size_t i = 0; i < f.size(); i++)
    {
        if (f[i] == "#")
        {
            return true;
        }
        if (i >= n.size() || (f[i] != "+" && f[i] != n[i]))
        {
            return false;
        }
    }
    return f.size() == n.size();
}
"""), (TP, "using namespace MQTTSNGW;\n", "#include <vector>\n\nusing namespace MQTTSNGW;\n"))
ref("match-iterators", (TP, BODY, """static void split(const string& text, std::vector<string>& v)
{
    string::size_type at = 0;
    for (string::size_type slash = text.find('/'); slash != string::npos; slash = text.find('/', at))
    {
        v.emplace_back(text.substr(at, slash - at));
        at = slash + 1;
    }
    v.emplace_back(text.substr(at));
}

bool Topic::isMatch(string* topicName)
{
    std::vector<string> f;
    std::vector<string> n;
    split(*_topicName, f);
    split(*topicName, n);
    std::vector<string>::const_iterator at = n.begin();
    for (const string& level : f)
    {
        if (level == "#")
        {
            return true;
        }
        if (at == n.end())
        {
            return false;
        }
        if (level != "+" && level.compare(*at) != 0)
        {
            return false;
        }
        ++at;
    }
    return at == n.end();
}
"""), (TP, "using namespace MQTTSNGW;\n", "#include <vector>\n\nusing namespace MQTTSNGW;\n"))

RUN_AGG = """
import sys, os; sys.path.insert(0, %r)
import report, aggregate, match, build
n, bad = 0, []
try:
    for p, f in (("A01", aggregate.A01), ("M01", aggregate.M01), ("O01", aggregate.O01)) if os.environ["SA_KIND"] == "agg" else (("W01", match.W01),):
        r = report.Report(p, "quick")
        f(r)
        n += len(r.obl)
        bad += [(p, k, o["detail"][:120], o["where"][:80]) for k, o in r.obl.items() if not o["ok"]]
    print("RESULT", len(bad), bad[:4] or n)
except build.AnalysisBroken as e:
    print("RESULT broken", str(e)[:600])
""" % (V + "/sa")

RUN_NET = """
import sys, os; sys.path.insert(0, %r)
import report, net, build
try:
    r = report.Report("N01", "quick")
    net.REG["N01"](r)
    bad = [(k, o["detail"][:120], o["where"][:80]) for k, o in r.obl.items() if not o["ok"]]
    print("RESULT", len(bad), bad[:4] or len(r.obl))
except build.AnalysisBroken as e:
    print("RESULT broken", str(e)[:600])
""" % (V + "/sa")

RUN_LOCKS = """
import sys, os; sys.path.insert(0, %r)
import report, tasks, locks, stop, build
n, bad = 0, []
try:
    for p in ("T01", "T02", "T03", "R01", "R02"):
        r = report.Report(p, "quick")
        dict(tasks.REG, **dict(locks.REG, **stop.REG))[p](r)
        n += len(r.obl)
        bad += [(p, k, o["detail"][:120], o["where"][:80]) for k, o in r.obl.items() if not o["ok"]]
    print("RESULT", len(bad), bad[:4] or n)
except build.AnalysisBroken as e:
    print("RESULT broken", str(e)[:600])
""" % (V + "/sa")


def apply(name, w):
    for e in R[name]:
        p = w + "/" + e[0]
        t = open(p, newline="").read()
        old, new = e[1], e[2]
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = e[3] if len(e) > 3 else 1
        if t.count(old) != n:
            sys.exit("%s: %d occurrences of %r in %s" % (name, t.count(old), e[1], e[0]))
        open(p, "w", newline="").write(t.replace(old, new))


if __name__ == "__main__":
    quiet = 0
    for name in sys.argv[1:] or list(R):
        w = tempfile.mkdtemp(prefix="rf_", dir="/tmp")
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
        apply(name, w)
        q = subprocess.run([sys.executable, "-c", RUN_TASKS if name.startswith("task-") else RUN_AGG if name.split("-")[0] in ("agg", "match") else RUN_NET if name.startswith("net-") else RUN_CONF if name.split("-")[0] in ("conf", "sensor", "radio", "proxy") else RUN_LOCKS if name.split("-")[0] in ("lock", "stop") else RUN], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, SA_REPO=w, SA_KIND=name.split("-")[0]))
        res = [x for x in q.stdout.splitlines() if x.startswith("RESULT")]
        res = res[0][7:] if res else "crash " + q.stdout[-600:]
        print(name, "quiet" if res.startswith("0 ") else res, flush=True)
        shutil.rmtree(w)
