/* The sensor network classes with stand-ins for the system's sockets and serial ports: nothing leaves the process. */
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <termios.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <mutex>
#include <thread>
#define private public
#include "MQTTSNGWProcess.h"
#include "SensorNetwork.h"
#undef private
using namespace std;
using namespace MQTTSNGW;

static int failed = 0;
static void same(const char* what, const string& got, const string& want)
{
    bool ok = got == want;
    printf("%s %s: %s%s%s\n", ok ? "ok  " : "FAIL", what, got.c_str(), ok ? "" : " instead of ", ok ? "" : want.c_str());
    failed |= !ok;
}
static string num(long n) { return to_string(n); }
static string hex(const void* p, size_t n)
{
    string s;
    char b[3];
    for (size_t i = 0; i < n; i++) { sprintf(b, "%02x", ((const unsigned char*) p)[i]); s += b; }
    return s;
}
static string raw(const char* h)
{
    string s;
    int v, n;
    while (sscanf(h, " %2x%n", &v, &n) == 1) { s += (char) v; h += n; }
    return s;
}

/* ---- sockets */
struct Sock
{
    bool open, reuse;
    int port, ttl;
};
static const int FIRST = 500;
static vector<Sock> socks;
static Sock* sock(int fd) { return fd >= FIRST && fd - FIRST < (int) socks.size() ? &socks[fd - FIRST] : 0; }
struct Datagram { int fd; string data; sockaddr_in6 to; };
static vector<Datagram> sent;

/* ---- serial ports: what was written, what is to be read */
static recursive_mutex lock_;
static string written;
static deque<unsigned char> input;

extern "C" {
int socket(int, int, int) throw() { socks.push_back(Sock{ true, false, 0, 1 }); return FIRST + (int) socks.size() - 1; }
int bind(int fd, const sockaddr* a, socklen_t) throw()
{
    int port = ntohs(((const sockaddr_in*) a)->sin_port);
    for (Sock& s : socks)
    {
        if (s.open && s.port == port && !(s.reuse && sock(fd)->reuse)) { errno = EADDRINUSE; return -1; }
    }
    sock(fd)->port = port;
    return 0;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t) throw()
{
    if (level == SOL_SOCKET && opt == SO_REUSEADDR) sock(fd)->reuse = *(const int*) v;
    if (level == IPPROTO_IPV6 && opt == IPV6_MULTICAST_HOPS) sock(fd)->ttl = *(const int*) v;
    if (level == IPPROTO_IP && opt == IP_MULTICAST_TTL) sock(fd)->ttl = *(const int*) v;
    return 0;
}
ssize_t sendto(int fd, const void* p, size_t n, int, const sockaddr* a, socklen_t l)
{
    Datagram d;
    d.fd = fd;
    d.data = string((const char*) p, n);
    memcpy(&d.to, a, l);
    sent.push_back(d);
    return n;
}
int open(const char*, int, ...)
{
    socks.push_back(Sock{ true, false, 0, 0 });
    return FIRST + (int) socks.size() - 1;
}
int close(int fd)
{
    if (sock(fd)) sock(fd)->open = false;
    return 0;
}
int tcsetattr(int, int, const struct termios*) throw() { return 0; }
ssize_t write(int fd, const void* p, size_t n)
{
    lock_guard<recursive_mutex> g(lock_);
    if (!sock(fd)) return -1;
    written.append((const char*) p, n);
    return n;
}
ssize_t read(int fd, void* p, size_t n)
{
    lock_guard<recursive_mutex> g(lock_);
    if (!sock(fd) || input.empty() || n < 1) return 0;
    *(unsigned char*) p = input.front();
    input.pop_front();
    return 1;
}
int select(int, fd_set*, fd_set*, fd_set*, struct timeval*)
{
    for (int i = 0; i < 5; i++)
    {
        {
            lock_guard<recursive_mutex> g(lock_);
            if (!input.empty()) return 1;
        }
        usleep(1000);
    }
    return 0;
}
}

static void give(const string& s)
{
    lock_guard<recursive_mutex> g(lock_);
    input.insert(input.end(), s.begin(), s.end());
}
/* the frames written are escaped; c: content of a frame with its length before and its check byte behind */
static string frame(const string& content, int more = 0)
{
    unsigned char sum = 0;
    for (unsigned char c : content) sum += c;
    string b;
    b += (char) ((content.size() + more) >> 8);
    b += (char) (content.size() + more);
    b += content;
    b += (char) (0xff - sum);
    string s = "\x7e";
    for (unsigned char c : b)
    {
        if (c == 0x7e || c == 0x7d || c == 0x11 || c == 0x13) { s += (char) 0x7d; s += (char) (c ^ 0x20); }
        else s += (char) c;
    }
    return s;
}
/* the content of the frame written, or what is wrong with it */
static string unframe(const string& w, int more = 0)
{
    if (w.empty() || w[0] != 0x7e) return "no frame";
    string b;
    for (size_t i = 1; i < w.size(); i++)
    {
        unsigned char c = w[i];
        if (c == 0x7e || c == 0x11 || c == 0x13) return "special byte";
        b += c == 0x7d && i + 1 < w.size() ? (char) (w[++i] ^ 0x20) : (char) c;
    }
    if (b.size() < 3 || ((unsigned char) b[0] << 8 | (unsigned char) b[1]) != (int) b.size() - 3 + more) return "wrong length";
    string c = b.substr(2, b.size() - 3);
    unsigned char sum = 0;
    for (unsigned char x : c) sum += x;
    return (unsigned char) b[b.size() - 1] == 0xff - sum ? hex(c.data(), c.size()) : "wrong check byte";
}

/* the working directory is a scratch directory */
static void configure(const char* conf)
{
    FILE* f = fopen("gateway.conf", "w");
    fwrite(conf, 1, strlen(conf), f);
    fclose(f);
    theProcess = new Process();
}
