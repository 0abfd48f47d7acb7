// F03: datagrams over Udp sockets: every sequence of operations on a few sockets of the loopback
// interface against a model of their queues, with failures injected at the system calls.
#include <rpp/base.h>
#include <rpp/net.h>
#include "mc.h"
#include "capture.h"
#include <arpa/inet.h>
#include <deque>
#include <errno.h>
#include <memory>
#include <set>
#include <sys/socket.h>
#include <unistd.h>
using namespace rpp;
using Net::Address;
using Net::Packet;
using Net::Udp;
static bool armed, fail_recv;
static std::set<int> fds;
static int last_socket = -1;
extern "C" {
int __real_socket(int, int, int);
int __wrap_socket(int d, int t, int p) {
    int fd = __real_socket(d, t, p);
    if(armed && fd >= 0) fds.insert(fd), last_socket = fd;
    return fd;
}
int __real_close(int);
int __wrap_close(int fd) {
    if(armed) {
        bool known = fds.erase(fd) != 0;
        MC_CHECK(known, "closes descriptor %d, which is not one of its sockets", fd);
    }
    return __real_close(fd);
}
// addresses as the kernel would see them
static bool record;
static sockaddr_in seen;
static socklen_t seen_len;
static int seen_fd = -1;
int __real_bind(int, const sockaddr*, socklen_t);
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) {
    if(!record) return __real_bind(fd, a, l);
    seen_fd = fd;
    seen_len = l;
    memcpy(&seen, a, sizeof seen);
    return 0;
}
ssize_t __real_sendto(int, const void*, size_t, int, const sockaddr*, socklen_t);
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int fl, const sockaddr* a, socklen_t l) {
    if(!record) return __real_sendto(fd, p, n, fl, a, l);
    seen_fd = fd;
    seen_len = l;
    memcpy(&seen, a, sizeof seen);
    return (ssize_t)n;
}
ssize_t __real_recvfrom(int, void*, size_t, int, sockaddr*, socklen_t*);
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int fl, sockaddr* a, socklen_t* l) {
    if(armed && fail_recv) {
        static const int es[] = {EINTR, ECONNREFUSED, ENOMEM, EAGAIN};
        int e = es[mc::g_ctx->choose(4, "error")];
        mc::g_ctx->op("recvfrom fails with errno %d", e);
        fail_recv = false;
        errno = e;
        return -1;
    }
    return __real_recvfrom(fd, p, n, fl, a, l);
}
}
static int lowest_fd() {
    int fd = dup(0);
    if(fd < 0) fd = dup(2);
    __real_close(fd);
    return fd;
}
static u16 port_of(int fd) {
    sockaddr_in a;
    socklen_t l = sizeof a;
    if(getsockname(fd, (sockaddr*)&a, &l)) return 0;
    return ntohs(a.sin_port);
}
static Address loop(u16 port) { // from a buffer of exactly its size
    static const char kText[] = "127.0.0.1";
    u8* p = (u8*)malloc(9);
    memcpy(p, kText, 9);
    Address a{String_View{p, 9}, port};
    free(p);
    return a;
}
struct Msg {
    u64 len;
    u32 tag;
    int from; // model endpoint
};
struct End { // a socket as the model sees it
    int fd;
    u16 port;
    std::deque<Msg> q;
};
static void fill(Packet& p, u64 len, u32 tag) {
    for(u64 i = 0; i < len; i++) p[i] = (u8)(tag * 41 + i * 7 + (i >> 8));
}
static void sockets(mc::Ctx& c) {
    armed = false;
    fds.clear();
    int low = lowest_fd();
    capture = true;
    armed = true;
    {
        // slots hold Udp objects; ends are the sockets behind them
        std::unique_ptr<Udp> slot[3];
        int at[3] = {-1, -1, -1};
        std::vector<End> ends;
        auto make = [&](int s) {
            slot[s] = std::make_unique<Udp>();
            End e;
            e.fd = last_socket;
            slot[s]->bind(loop(0));
            e.port = port_of(e.fd);
            MC_CHECK(e.port != 0, "binding a new socket");
            at[s] = (int)ends.size();
            ends.push_back(e);
        };
        make(0);
        make(1);
        u32 tag = 1;
        static const u64 lens[] = {0, 1, 5, 1471, 1472};
        static std::unique_ptr<Packet> out(new Packet{}), in(new Packet{});
        int depth = c.tier(4, 5);
        for(int step = 0; step < depth; step++) {
            switch(c.choose(6, "operation")) {
            case 0: { // send
                int from = (int)c.choose(3, "from"), to = (int)c.choose(2, "to");
                if(at[from] < 0 || at[to] < 0) break;
                u64 len = lens[tag % 5];
                fill(*out, Net::min_transmissible_unit, tag);
                Packet keep = *out;
                u64 n = slot[from]->send(loop(ends[(size_t)at[to]].port), *out, len);
                MC_CHECK(n == len, "send of %llu bytes returns %llu", (unsigned long long)len, (unsigned long long)n);
                MC_CHECK(memcmp(keep.data(), out->data(), Packet::capacity) == 0, "send changes the packet");
                ends[(size_t)at[to]].q.push_back({len, tag, at[from]});
                c.op("%d sends %llu bytes to %d", from, (unsigned long long)len, to);
                tag++;
                break;
            }
            case 1: // receive
            case 2: { // receive and answer
                int s = (int)c.choose(3, "socket");
                if(at[s] < 0) break;
                End& e = ends[(size_t)at[s]];
                fail_recv = c.choose(4, "fault") == 3;
                bool faulty = fail_recv;
                memset(in->data(), 0xa5, Packet::capacity);
                auto r = slot[s]->recv(*in);
                fail_recv = false;
                if(faulty) {
                    MC_CHECK(!r.ok(), "a failed receive returns a packet of %llu bytes", (unsigned long long)r->length);
                    break;
                }
                MC_CHECK(r.ok() == !e.q.empty(), "receive returns %d with %zu packets waiting", r.ok(), e.q.size());
                c.op("%d receives %d", s, r.ok());
                if(!r.ok()) break;
                Msg m = e.q.front();
                e.q.pop_front();
                MC_CHECK(r->length == m.len, "packet of %llu bytes arrives as %llu", (unsigned long long)m.len, (unsigned long long)r->length);
                fill(*out, m.len, m.tag);
                MC_CHECK(memcmp(in->data(), out->data(), m.len) == 0, "a packet arrives with other bytes");
                for(u64 i = m.len; i < Packet::capacity; i++)
                    if((*in)[i] != 0xa5) mc::fail("receive writes beyond the packet's %llu bytes", (unsigned long long)m.len);
                int back = -1; // who sent it, if that socket still exists
                for(int j = 0; j < 3; j++)
                    if(at[j] == m.from) back = j;
                if(c.choose(2, "reply") && back >= 0) {
                    fill(*out, 3, tag);
                    MC_CHECK(slot[s]->send(r->from, *out, 3) == 3, "reply");
                    ends[(size_t)m.from].q.push_back({3, tag, at[s]});
                    c.op("%d replies to %d", s, back);
                    tag++;
                }
                break;
            }
            case 3: { // move construct
                int a = (int)c.choose(2, "from"), b = 2;
                if(at[a] < 0 || slot[b]) break;
                slot[b] = std::make_unique<Udp>(rpp::move(*slot[a]));
                at[b] = at[a];
                at[a] = -1;
                c.op("move %d to a new socket", a);
                break;
            }
            case 4: { // move assign, possibly to itself or from or over a moved-from one
                int a = (int)c.choose(3, "from"), b = (int)c.choose(3, "to");
                if(!slot[a] || !slot[b]) break;
                Udp& src = *slot[a];
                *slot[b] = rpp::move(src);
                if(a != b) at[b] = at[a], at[a] = -1;
                c.op("assign %d to %d", a, b);
                break;
            }
            default: { // destroy or create
                int s = (int)c.choose(3, "slot");
                if(slot[s]) slot[s].reset(), at[s] = -1;
                else make(s);
                c.op("replace %d", s);
                break;
            }
            }
            std::set<int> live;
            for(int s = 0; s < 3; s++)
                if(at[s] >= 0) live.insert(ends[(size_t)at[s]].fd);
            MC_CHECK(fds == live, "%zu sockets are open for %zu live objects", fds.size(), live.size());
            u64 h = 0;
            for(int s = 0; s < 3; s++) h = mc::mix(h, slot[s] ? (u64)at[s] + 2 : 0);
            for(End& e : ends) h = mc::mix(h, e.q.size());
            c.state(h);
        }
        // whatever is still queued arrives in order
        for(int s = 0; s < 3; s++) {
            if(at[s] < 0) continue;
            End& e = ends[(size_t)at[s]];
            while(!e.q.empty()) {
                auto r = slot[s]->recv(*in);
                Msg m = e.q.front();
                e.q.pop_front();
                fill(*out, m.len, m.tag);
                MC_CHECK(r.ok() && r->length == m.len && memcmp(in->data(), out->data(), m.len) == 0, "a queued packet is lost, altered or out of order");
            }
            MC_CHECK(!slot[s]->recv(*in).ok(), "a packet nobody sent arrives");
        }
    }
    armed = false;
    capture = false;
    MC_CHECK(fds.empty() && lowest_fd() == low, "a socket is left open");
}
// every packet length
static void lengths(mc::Ctx& c) {
    u64 block = c.choose(64, "length / 23");
    static std::unique_ptr<Packet> out(new Packet{}), in(new Packet{});
    Udp a, b;
    int fb = last_socket;
    armed = true;
    Udp d;
    fb = last_socket;
    armed = false;
    d.bind(loop(0));
    u16 port = port_of(fb);
    for(u64 i = 0; i < 23; i++) {
        u64 len = block * 23 + i;
        if(len > Net::min_transmissible_unit) break;
        fill(*out, Packet::capacity, (u32)len);
        memset(in->data(), 0xa5, Packet::capacity);
        u64 n = a.send(loop(port), *out, len);
        auto r = d.recv(*in);
        MC_CHECK(n == len && r.ok() && r->length == len && memcmp(in->data(), out->data(), len) == 0, "a packet of %llu bytes", (unsigned long long)len);
        for(u64 k = len; k < Packet::capacity; k++)
            if((*in)[k] != 0xa5) mc::fail("receive writes beyond the packet's %llu bytes", (unsigned long long)len);
        c.state(len);
    }
    c.op("lengths from %llu", (unsigned long long)block * 23);
}
// addresses: what reaches the kernel is the address that was written
static void addresses(mc::Ctx& c) {
    static const char* hosts[] = {"127.0.0.1", "127.0.0.2", "127.1.2.3", "127.255.255.254", nullptr};
    u32 h = c.choose(5, "host");
    u32 junk = c.choose(3, "what follows the address in memory");
    armed = true;
    fds.clear();
    {
        Udp a;
        int fa = last_socket;
        if(hosts[h]) {
            std::string t = hosts[h];
            size_t n = t.size();
            if(junk) t += junk == 1 ? "9" : ".77";
            u8* p = (u8*)malloc(t.size());
            memcpy(p, t.data(), t.size());
            a.bind(Address{String_View{p, n}, 0});
            free(p);
        } else a.bind(Address{(u16)0});
        sockaddr_in s;
        socklen_t l = sizeof s;
        MC_CHECK(getsockname(fa, (sockaddr*)&s, &l) == 0 && s.sin_family == AF_INET && s.sin_addr.s_addr == (hosts[h] ? inet_addr(hosts[h]) : INADDR_ANY), "binding to %s binds to %s", hosts[h] ? hosts[h] : "any", inet_ntoa(s.sin_addr));
        // the port: bind a second socket to a port known to be free, by the same and by the wildcard address
        u16 port;
        {
            Udp t;
            int ft = last_socket;
            t.bind(Address{(u16)0});
            port = port_of(ft);
        }
        Udp b;
        int fb = last_socket;
        int probe = __real_socket(AF_INET, SOCK_DGRAM, 0);
        sockaddr_in w{};
        w.sin_family = AF_INET;
        w.sin_port = htons(port);
        bool is_free = __real_bind(probe, (sockaddr*)&w, sizeof w) == 0;
        __real_close(probe);
        if(is_free) {
            b.bind(hosts[h] ? Address{String_View{(const u8*)hosts[h], strlen(hosts[h])}, port} : Address{port});
            MC_CHECK(port_of(fb) == port, "binding to port %u binds to %u", port, port_of(fb));
        }
    }
    armed = false;
    MC_CHECK(fds.empty(), "a socket is left open");
    c.op("address %u", h);
    c.state(mc::mix(h, junk));
}
// every port and many hosts, through bind and send
static void check_seen(const std::string& host, u16 port, const char* what) {
    MC_CHECK(seen_len == sizeof(sockaddr_in) && seen.sin_family == AF_INET && ntohs(seen.sin_port) == port && seen.sin_addr.s_addr == (host.empty() ? INADDR_ANY : inet_addr(host.c_str())),
             "%s %s port %u uses %s port %u", what, host.c_str(), port, inet_ntoa(seen.sin_addr), ntohs(seen.sin_port));
}
static void ports(mc::Ctx& c) {
    u32 block = c.choose(64, "port / 1024");
    std::unique_ptr<Packet> out(new Packet{});
    record = true;
    {
        Udp a;
        for(u32 i = 0; i < 1024; i++) {
            u16 port = (u16)(block * 1024 + i);
            a.bind(Address{port});
            check_seen("", port, "bind");
            a.bind(loop(port));
            check_seen("127.0.0.1", port, "bind");
            MC_CHECK(a.send(loop(port), *out, 1) == 1, "send");
            check_seen("127.0.0.1", port, "send");
            c.state(port);
        }
    }
    record = false;
    c.op("ports from %u", block * 1024);
}
static void hosts(mc::Ctx& c) {
    static const int part[] = {0, 1, 9, 10, 19, 99, 100, 101, 127, 128, 192, 199, 200, 249, 250, 255};
    int x = part[c.choose(16, "second part")];
    u32 tail = c.choose(3, "what follows the address in memory");
    std::unique_ptr<Packet> out(new Packet{});
    record = true;
    {
        Udp a;
        for(int y : part)
            for(int z = 0; z < 256; z++) {
                std::string t = "127." + std::to_string(x) + "." + std::to_string(y) + "." + std::to_string(z), u = t + (tail == 0 ? "" : tail == 1 ? "1" : ".1");
                u8* p = (u8*)malloc(u.size());
                memcpy(p, u.data(), u.size());
                Address d{String_View{p, t.size()}, (u16)(z * 251 + y)};
                free(p);
                MC_CHECK(a.send(d, *out, 3) == 3, "send");
                check_seen(t, (u16)(z * 251 + y), "send");
                a.bind(d);
                check_seen(t, (u16)(z * 251 + y), "bind");
                c.state(mc::mix(mc::mix(x, y), z));
            }
    }
    record = false;
    c.op("hosts 127.%d.*.*", x);
}
// long queues and many sockets: n senders take turns, the receiver answers each packet later
static void many(mc::Ctx& c) {
    static const u32 counts[] = {1, 2, 3, 7, 8, 9, 16, 17, 31, 33, 48, 64};
    u32 senders = counts[c.choose((u32)c.tier(9, 12), "senders")], rounds = 1 + c.choose(4, "packets each");
    u32 shape = c.choose(4, "lengths"), order = c.choose(2, "receive late");
    capture = true;
    armed = true;
    fds.clear();
    {
        Udp sink;
        int fs = last_socket;
        int big = 4 << 20;
        setsockopt(fs, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
        sink.bind(loop(0));
        u16 port = port_of(fs);
        std::vector<Udp> s; // moved as the vector grows
        std::vector<int> sf;
        for(u32 i = 0; i < senders; i++) {
            Udp u;
            sf.push_back(last_socket);
            if(i % 2) u.bind(Address{(u16)0});
            s.push_back(rpp::move(u));
        }
        static std::unique_ptr<Packet> out(new Packet{}), in(new Packet{});
        std::vector<Msg> sent;
        std::vector<std::deque<u32>> answers(senders);
        auto take = [&](Msg m, u32 k) {
            memset(in->data(), 0xa5, Packet::capacity);
            auto r = sink.recv(*in);
            MC_CHECK(r.ok(), "packet %u of %zu is lost", k, sent.size());
            fill(*out, m.len, m.tag);
            MC_CHECK(r->length == m.len && memcmp(in->data(), out->data(), m.len) == 0, "packet %u arrives altered or out of order", k);
            for(u64 i = m.len; i < Packet::capacity; i++)
                if((*in)[i] != 0xa5) mc::fail("receive writes beyond packet %u", k);
            (*out)[0] = (u8)k, (*out)[1] = (u8)(k >> 8);
            MC_CHECK(sink.send(r->from, *out, 2) == 2, "answer");
            answers[(size_t)m.from].push_back(k);
        };
        // the loopback queue is bounded by bytes: stay well within it
        u32 k = 0, taken = 0;
        u64 queued = 0;
        for(u32 r = 0; r < rounds; r++)
            for(u32 i = 0; i < senders; i++, k++) {
                u64 len = shape == 0 ? k % 5 : shape == 1 ? Net::min_transmissible_unit - k % 3 : shape == 2 ? (k * 37) % 1473 : (k % 2 ? 1472 : 0);
                fill(*out, Net::min_transmissible_unit, k);
                MC_CHECK(s[i].send(loop(port), *out, len) == len, "send");
                sent.push_back({len, k, (int)i});
                queued++;
                if(!order || queued > 60) take(sent[taken], taken), taken++, queued--;
            }
        while(taken < k) take(sent[taken], taken), taken++;
        MC_CHECK(!sink.recv(*in).ok(), "a packet nobody sent arrives");
        for(u32 i = 0; i < senders; i++) {
            while(!answers[i].empty()) {
                auto r = s[i].recv(*in);
                MC_CHECK(r.ok() && r->length == 2 && (u32)((*in)[0] | (*in)[1] << 8) == answers[i].front(), "sender %u does not get its answer", i);
                answers[i].pop_front();
            }
            MC_CHECK(!s[i].recv(*in).ok(), "sender %u gets a packet not meant for it", i);
        }
        c.op("%u senders, %u packets", senders, k);
        c.state(mc::mix(mc::mix(senders, rounds), shape * 2 + order));
        MC_CHECK(fds.size() == senders + 1, "%zu sockets open", fds.size());
    }
    armed = false;
    capture = false;
    MC_CHECK(fds.empty(), "a socket is left open");
}
int main(int argc, char** argv) {
    mc::Main m;
    m.property = "F03";
    m.bounds = "all sequences of 4 (thorough 5) operations (send, receive with and without an injected error, reply, move, assign, destroy, create) on up to 3 sockets over the loopback interface; every packet length; 5 addresses in exactly sized and in longer buffers; every port and 65536 loopback addresses as bind and sendto see them (recorded, not executed); up to 33 (thorough 64) senders with up to 4 packets each queued at one socket and answered.";
    m.assumptions.push_back("the loopback interface delivers datagrams synchronously and in order");
    m.add("sockets", sockets, 3);
    m.add("lengths", lengths, 1);
    m.add_serial("addresses", addresses);
    m.add("ports", ports, 1);
    m.add("hosts", hosts, 1);
    m.add("many", many, 1);
    return m.run(argc, argv);
}
