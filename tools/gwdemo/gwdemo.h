/* A gateway whose packet handling task is fed with packets; what it queues is printed as hex. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <sstream>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#define private public
#include "MQTTSNGateway.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWClientList.h"
#include "MQTTSNGWPacketHandleTask.h"
#include "MQTTSNGWPacket.h"
#include "MQTTGWPacket.h"
#include "MQTTSNGWAdapterManager.h"
#include "MQTTSNAggregateConnectionHandler.h"
#include "MQTTSNGWTopic.h"
#include "MQTTSNGWMessageIdTable.h"
#include "MQTTSNGWAggregateTopicTable.h"
#undef private
using namespace MQTTSNGW;
using std::string;
typedef std::vector<string> Strs;

static string hex(const unsigned char* p, int n)
{
    string s;
    char b[4];
    for (int i = 0; i < n; i++) { sprintf(b, "%02x", p[i]); s += b; }
    return s;
}
static string raw(const char* h)
{
    string s;
    for (; *h; h++) { if (*h == ' ') continue; unsigned v; sscanf(h, "%2x", &v); s += (char) v; h++; }
    return s;
}

struct Demo
{
    Gateway* gw;
    PacketHandleTask* task;
    Client* client;
    Strs toClient, toBroker;

    Demo()
    {
        setvbuf(stdout, 0, _IONBF, 0);
        gw = new Gateway();
        gw->getGWParams()->mqttVersion = 4;
        gw->getGWParams()->gatewayId = 7;
        gw->getGWParams()->keepAlive = 900;
        gw->getGWParams()->maxClients = 20;
        gw->getClientSendQue()->setMaxSize(100);
        gw->getBrokerSendQue()->setMaxSize(100);
        gw->getPacketEventQue()->setMaxSize(100);
        gw->getGWParams()->gatewayName = strdup("gw");
        gw->getClientList()->initialize(false);
        task = new PacketHandleTask(gw);
        client = newClient("cl1", 1001);
        client->updateStatus(Cstat_Active);
    }
    Client* newClient(const char* id, int port, int type = TRANSPEARENT_TYPE)
    {
        SensorNetAddress* a = new SensorNetAddress();
        char b[32];
        sprintf(b, "127.0.0.1:%d", port);
        string s(b);
        a->setAddress(&s);
        MQTTSNString str = MQTTSNString_initializer;
        str.cstring = strdup(id);
        Client* c = gw->getClientList()->createClient(a, &str, type);
        free(str.cstring);
        delete a;
        return c;
    }
    static MQTTSNPacket* sn(const char* h)
    {
        string d = raw(h);
        MQTTSNPacket* p = new MQTTSNPacket();
        p->desirialize((unsigned char*) d.data(), d.size());
        return p;
    }
    /* an MQTT packet as the gateway holds it after it received these bytes */
    static MQTTGWPacket* mq(const char* h)
    {
        string d = raw(h);
        MQTTGWPacket* p = new MQTTGWPacket();
        size_t i = 1;
        int m = 1;
        p->_header.byte = d[0];
        do { p->_remainingLength += (d[i] & 127) * m; m *= 128; } while (d[i++] & 128);
        if (p->_remainingLength)
        {
            p->_data = (unsigned char*) calloc(p->_remainingLength, 1);
            memcpy(p->_data, d.data() + i, p->_remainingLength);
        }
        return p;
    }
    void post(Event* e) { gw->getPacketEventQue()->post(e); }
    void fromClient(const char* h, Client* c = 0)
    {
        Event* e = new Event();
        e->setClientRecvEvent(c ? c : client, sn(h));
        post(e);
    }
    void fromBroker(const char* h, Client* c = 0)
    {
        Event* e = new Event();
        e->setBrokerRecvEvent(c ? c : client, mq(h));
        post(e);
    }
    void handle()
    {
        Event* e;
        do
        {
            e = new Event();
            e->setStop();
            post(e);
            task->run();
        } while (gw->getPacketEventQue()->size() > 0);
        toClient.clear();
        toBroker.clear();
        while (gw->getClientSendQue()->size() > 0)
        {
            e = gw->getClientSendQue()->wait();
            MQTTSNPacket* p = e->getMQTTSNPacket();
            toClient.push_back(p->getPacketData() ? hex(p->getPacketData(), p->getPacketLength()) : "empty");
            delete e;
        }
        while (gw->getBrokerSendQue()->size() > 0)
        {
            e = gw->getBrokerSendQue()->wait();
            MQTTGWPacket* p = e->getMQTTGWPacket();
            std::vector<unsigned char> b(p->getPacketLength() + 8);
            toBroker.push_back(hex(b.data(), p->getPacketData(b.data())));
            delete e;
        }
    }
    string all()
    {
        string s = "client:";
        for (auto& x : toClient) s += " " + x;
        s += " broker:";
        for (auto& x : toBroker) s += " " + x;
        return s;
    }
    /* feed one packet and see what comes out */
    string sendSN(const char* h, Client* c = 0) { fromClient(h, c); handle(); return all(); }
    string sendMQ(const char* h, Client* c = 0) { fromBroker(h, c); handle(); return all(); }
};

static int failed = 0;
static void same(const char* what, const string& got, const string& want)
{
    if (got != want)
    {
        printf("FAIL %s: got [%s], expected [%s]\n", what, got.c_str(), want.c_str());
        failed = 1;
    }
}
