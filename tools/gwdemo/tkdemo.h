/* The gateway's tasks, running as threads, between UDP sockets (clients) and TCP sockets (the broker) on the loopback interface. */
#include "gwdemo.h"
#include <thread>
#include <signal.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#define private public
#include "MQTTSNGWClientRecvTask.h"
#include "MQTTSNGWClientSendTask.h"
#include "MQTTSNGWBrokerRecvTask.h"
#include "MQTTSNGWBrokerSendTask.h"
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWQoSm1Proxy.h"
#undef private
extern volatile int theSignaled;

static bool readable(int fd, int ms = 1500)
{
    struct pollfd p = { fd, POLLIN, 0 };
    return poll(&p, 1, ms) > 0;
}
/* a UDP socket on the loopback interface */
struct Udp
{
    int fd, port;
    Udp()
    {
        sockaddr_in a;
        socklen_t n = sizeof(a);
        memset(&a, 0, n);
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        fd = socket(AF_INET, SOCK_DGRAM, 0);
        bind(fd, (sockaddr*) &a, n);
        getsockname(fd, (sockaddr*) &a, &n);
        port = ntohs(a.sin_port);
    }
    void send(const char* h, int to)
    {
        string d = raw(h);
        sockaddr_in a;
        memset(&a, 0, sizeof(a));
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        a.sin_port = htons(to);
        sendto(fd, d.data(), d.size(), 0, (sockaddr*) &a, sizeof(a));
    }
    string recv(int ms = 1500)
    {
        unsigned char b[2048];
        if (!readable(fd, ms)) return "nothing";
        return hex(b, ::recv(fd, b, sizeof(b), 0));
    }
};
/* the broker: a TCP socket that listens on the loopback interface */
struct Broker
{
    int fd, port;
    std::vector<int> conn;
    Broker()
    {
        sockaddr_in a;
        socklen_t n = sizeof(a);
        memset(&a, 0, n);
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        fd = socket(AF_INET, SOCK_STREAM, 0);
        bind(fd, (sockaddr*) &a, n);
        getsockname(fd, (sockaddr*) &a, &n);
        port = ntohs(a.sin_port);
        listen(fd, 10);
    }
    bool accept(int ms = 1500)
    {
        if (!readable(fd, ms)) return false;
        conn.push_back(::accept(fd, 0, 0));
        return true;
    }
    string recv(int i, int ms = 1500)
    {
        string s;
        unsigned char b[4096];
        while (readable(conn[i], ms))
        {
            int n = ::recv(conn[i], b, sizeof(b), 0);
            if (n <= 0) return s + "end";
            s += hex(b, n);
            ms = 200;
        }
        return s.empty() ? "nothing" : s;
    }
    void send(int i, const char* h)
    {
        string d = raw(h);
        ::send(conn[i], d.data(), d.size(), MSG_NOSIGNAL);
    }
};

struct Tasks : Demo
{
    Udp port, multi;            /* the gateway's own sockets */
    Broker broker;
    ClientRecvTask* crecv;
    ClientSendTask* csend;
    BrokerRecvTask* brecv;
    BrokerSendTask* bsend;
    std::vector<std::thread*> threads;

    Tasks()
    {
        char b[16];
        if (!theProcess) { theMultiTaskProcess = gw; theProcess = gw; }
        sprintf(b, "%d", broker.port);
        gw->getGWParams()->brokerName = strdup("127.0.0.1");
        gw->getGWParams()->port = strdup(b);
        SensorNetwork* s = gw->getSensorNetwork();
        s->_pollFds[0].fd = port.fd;
        s->_pollFds[0].events = POLLIN;
        s->_pollFds[1].fd = multi.fd;
        s->_pollFds[1].events = POLLIN;
        crecv = new ClientRecvTask(gw);
        csend = new ClientSendTask(gw);
        brecv = new BrokerRecvTask(gw);
        bsend = new BrokerSendTask(gw);
        brecv->initialize(0, 0);
        bsend->initialize(0, 0);
    }
    template <class T> void start(T* t) { threads.push_back(new std::thread([t] { t->run(); })); }
    /* the process ends without waiting for the tasks */
    int done() { fflush(stdout); _exit(failed); }

    SensorNetAddress* address(int port)
    {
        char b[32];
        sprintf(b, "127.0.0.1:%d", port);
        string s(b);
        SensorNetAddress* a = new SensorNetAddress();
        a->setAddress(&s);
        return a;
    }
    Client* clientAt(const char* id, int port, int type = TRANSPEARENT_TYPE)
    {
        Client* c = newClient(id, port, type);
        c->updateStatus(Cstat_Active);
        return c;
    }
    /* gives a client a connection that is up; returns the broker's index of it */
    int connect(Client* c)
    {
        c->getNetwork()->connect("127.0.0.1", gw->getGWParams()->port);
        broker.accept();
        return broker.conn.size() - 1;
    }
    /* what the packet handling task finds in its queue */
    string event(int ms = 1500)
    {
        EventQue* q = gw->getPacketEventQue();
        for (; ms > 0 && q->size() == 0; ms -= 10) usleep(10000);
        if (q->size() == 0) return "nothing";
        Event* e = q->wait();
        string s;
        switch (e->getEventType())
        {
        case EtClientRecv: s = "client"; break;
        case EtBrokerRecv: s = "broker"; break;
        case EtBroadcast: s = "broadcast"; break;
        default: s = "other"; break;
        }
        if (e->getClient()) s += string(" ") + (const char*) e->getClient()->getClientId();
        if (e->getMQTTSNPacket()) s += " " + hex(e->getMQTTSNPacket()->getPacketData(), e->getMQTTSNPacket()->getPacketLength());
        if (e->getMQTTGWPacket())
        {
            MQTTGWPacket* p = e->getMQTTGWPacket();
            std::vector<unsigned char> b(p->getPacketLength() + 8);
            s += " " + hex(b.data(), p->getPacketData(b.data()));
        }
        delete e;
        return s;
    }
    void queueSN(const char* h, Client* c)
    {
        Event* e = new Event();
        e->setClientSendEvent(c, sn(h));
        gw->getClientSendQue()->post(e);
    }
    void queueMQ(const char* h, Client* c)
    {
        Event* e = new Event();
        e->setBrokerSendEvent(c, mq(h));
        gw->getBrokerSendQue()->post(e);
    }
};
