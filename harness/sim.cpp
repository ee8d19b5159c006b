#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <cxxabi.h>
#include <link.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <thread>
#include <memory>
#include <unistd.h>
#include <arpa/inet.h>
#include <sys/mman.h>

namespace sim
{

Kernel* Kernel::cur = nullptr;
std::function<int(void* (*)(void*), void*, unsigned long*)> onThreadCreate;
std::function<int(unsigned long)> onThreadJoin;
bool logs = false;
std::function<void(std::int64_t)> onSleep;

std::uint32_t SocketFile::level() const
{
    std::uint32_t m = 0;
    switch (st)
    {
    case St::fresh: case St::bound: return EPOLLOUT | EPOLLHUP;
    case St::listening: return backlog.empty() ? 0 : EPOLLIN;
    case St::connecting: return 0;
    case St::failed: return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
    case St::connected:
        if (!rx.empty() || fin) m |= EPOLLIN;
        if (fin) m |= EPOLLRDHUP;
        if (txLimit != 0) m |= EPOLLOUT;
        if (fin && shutWr) m |= EPOLLHUP;
        if (reset) m |= EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP;
        if (err) m |= EPOLLERR;
        return m;
    }
    return m;
}

Kernel::Kernel() { cur = this; }
Kernel::~Kernel() { if (cur == this) cur = nullptr; }

void Kernel::report(std::string const& s)
{
    anomalies.push_back(s);
    if (anomaly) anomaly(s);
}

int Kernel::alloc(FilePtr f)
{
    int fd = fdBase;
    while (files.count(fd)) ++fd;
    f->fd = fd;
    f->uid = nextUid++;
    files[fd] = f;
    return fd;
}

FilePtr Kernel::get(int fd)
{
    auto it = files.find(fd);
    return it == files.end() ? nullptr : it->second;
}

void Kernel::pushReady(EpollFile& e, int fd)
{
    if (std::find(e.ready.begin(), e.ready.end(), fd) == e.ready.end()) e.ready.push_back(fd);
}

void Kernel::wake(File& f, std::uint32_t mask)
{
    for (auto& [e, fd] : f.watchers)
    {
        auto it = e->regs.find(fd);
        if (it == e->regs.end()) continue;
        if (mask & (it->second.interest | EPOLLERR | EPOLLHUP)) pushReady(*e, fd);
    }
}

void Kernel::dropWatchers(File& f)
{
    for (auto& [e, fd] : f.watchers)
    {
        e->regs.erase(fd);
        e->ready.erase(std::remove(e->ready.begin(), e->ready.end(), fd), e->ready.end());
    }
    f.watchers.clear();
}

unsigned Kernel::countOpen(File::Kind k) const
{
    unsigned n = 0;
    for (auto& p : files) n += p.second->kind == k;
    return n;
}

std::vector<std::shared_ptr<TimerFile>> Kernel::armedTimers() const
{
    std::vector<std::shared_ptr<TimerFile>> r;
    for (auto& p : files)
        if (auto t = std::dynamic_pointer_cast<TimerFile>(p.second)) if (t->armed) r.push_back(t);
    std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a->deadline != b->deadline ? a->deadline < b->deadline : a->uid < b->uid; });
    return r;
}

bool Kernel::nextDeadline(std::int64_t& out) const
{
    auto v = armedTimers();
    if (v.empty()) return false;
    out = v[0]->deadline;
    return true;
}

void Kernel::advanceTo(std::int64_t t)
{
    if (t > now) now = t;
    for (auto& tm : armedTimers())
        if (tm->deadline <= now)
        {
            tm->armed = tm->interval > 0;
            tm->expirations += 1;
            if (tm->armed) { std::int64_t const n = (now - tm->deadline) / tm->interval; tm->expirations += n; tm->deadline += (n + 1) * tm->interval; }
            wake(*tm, EPOLLIN);
        }
}

bool Kernel::fireNextTimer()
{
    std::int64_t t;
    if (!nextDeadline(t)) return false;
    advanceTo(t);
    return true;
}

// ---------------------------------------------------------------- world side

std::vector<std::shared_ptr<SocketFile>> Kernel::listeners()
{
    std::vector<std::shared_ptr<SocketFile>> r;
    for (auto& p : files)
        if (auto s = std::dynamic_pointer_cast<SocketFile>(p.second)) if (s->st == SocketFile::St::listening) r.push_back(s);
    return r;
}

std::vector<std::shared_ptr<SocketFile>> Kernel::connecting()
{
    std::vector<std::shared_ptr<SocketFile>> r;
    for (auto& p : files)
        if (auto s = std::dynamic_pointer_cast<SocketFile>(p.second)) if (s->st == SocketFile::St::connecting) r.push_back(s);
    return r;
}

PeerPtr Kernel::dial(std::uint16_t port)
{
    for (auto& s : listeners())
        if (s->port == port)
        {
            auto p = std::make_shared<Peer>();
            p->id = peers.size();
            p->port = port;
            peers.push_back(p);
            s->backlog.push_back(p);
            wake(*s, EPOLLIN);
            return p;
        }
    return nullptr;
}

PeerPtr Kernel::dialAny()
{
    auto l = listeners();
    return l.empty() ? nullptr : dial(l[0]->port);
}

PeerPtr Kernel::establish(std::shared_ptr<SocketFile> const& s)
{
    auto p = std::make_shared<Peer>();
    p->id = peers.size();
    p->addr = s->addr;
    p->port = s->port;
    p->accepted = true;
    p->sock = s;
    p->sockUid = s->uid;
    s->peer = p;
    s->st = SocketFile::St::connected;
    peers.push_back(p);
    wake(*s, EPOLLOUT);
    return p;
}

void Kernel::refuse(std::shared_ptr<SocketFile> const& s)
{
    s->st = SocketFile::St::failed;
    s->err = ECONNREFUSED;
    wake(*s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
}

void Peer::send(std::string const& b, bool doWake)
{
    auto s = sock.lock();
    if (!s) { if (!accepted) pendingRx += b; return; }
    if (s->reset) return;
    s->rx += b;
    if (doWake) Kernel::cur->wake(*s, EPOLLIN);
}

void Peer::close()
{
    if (closed) return;
    closed = true;
    auto s = sock.lock();
    if (!s) { pendingFin = true; return; }
    s->fin = true;
    s->peerGone = true;
    Kernel::cur->wake(*s, EPOLLIN | EPOLLRDHUP);
}

void Peer::reset()
{
    if (didReset) return;
    didReset = true;
    auto s = sock.lock();
    if (!s) { pendingReset = true; return; }
    s->reset = true;
    s->err = ECONNRESET;
    s->rx.clear();
    Kernel::cur->wake(*s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}

void Peer::limitTx(std::int64_t n)
{
    auto s = sock.lock();
    if (!s) return;
    bool was = s->txLimit == 0;
    s->txLimit = n;
    if (was && n != 0) Kernel::cur->wake(*s, EPOLLOUT);
}

// ---------------------------------------------------------------- implementation side

#define ENTER(NAME, FD)                                                   \
    ++calls;                                                              \
    if (onCall) onCall(NAME, FD);                                         \
    if (fault) { if (int fe_ = fault(NAME, FD)) { errno = fe_; return -1; } }

int Kernel::k_close(int fd)
{
    ++calls;
    if (onCall) onCall("close", fd);
    auto f = get(fd);
    if (!f)
    {
        report("close of a descriptor that is not open");
        errno = EBADF;
        return -1;
    }
    dropWatchers(*f);
    if (auto s = std::dynamic_pointer_cast<SocketFile>(f))
    {
        if (s->peer) { s->peer->sutClosed = true; s->peer->sock.reset(); }
        for (auto& p : s->backlog) { p->sutClosed = true; }
        // the side that closes first keeps the port for a minute
        if (s->incoming && !s->fin && !s->reset && !s->peerGone && s->rx.empty()) timeWait[s->port] = now + 60000000000LL;
    }
    if (auto e = std::dynamic_pointer_cast<EpollFile>(f))
    {
        for (auto& r : e->regs)
            if (auto g = get(r.first))
                g->watchers.erase(std::remove_if(g->watchers.begin(), g->watchers.end(), [&](auto& w) { return w.first == e.get(); }), g->watchers.end());
    }
    files.erase(fd);
    if (fault) { if (int e = fault("close", fd)) { errno = e; return -1; } }
    return 0;
}

int Kernel::k_socket()
{
    ENTER("socket", -1);
    auto s = std::make_shared<SocketFile>();
    s->kind = File::Kind::socket;
    return alloc(s);
}

int Kernel::k_connect(int fd, sockaddr const* a, unsigned)
{
    ENTER("connect", fd);
    auto s = as<SocketFile>(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->st == SocketFile::St::connected) { errno = EISCONN; return -1; }
    if (s->st == SocketFile::St::connecting) { errno = EALREADY; return -1; }
    auto in = reinterpret_cast<sockaddr_in const*>(a);
    s->addr = ntohl(in->sin_addr.s_addr);
    s->port = ntohs(in->sin_port);
    int r = connectResult ? connectResult() : 0;
    if (r == 1)
    {
        establish(s);
        return 0;
    }
    if (r < 0) { errno = -r; return -1; }
    s->st = SocketFile::St::connecting;
    if (!s->nonblock) report("blocking connect");
    errno = EINPROGRESS;
    return -1;
}

int Kernel::k_bind(int fd, sockaddr const* a, unsigned)
{
    ENTER("bind", fd);
    auto s = as<SocketFile>(fd);
    if (!s) { errno = EBADF; return -1; }
    auto in = reinterpret_cast<sockaddr_in const*>(a);
    std::uint32_t ad = ntohl(in->sin_addr.s_addr);
    std::uint16_t po = ntohs(in->sin_port);
    for (auto& l : listeners())
        if (l->port == po && (l->addr == ad || !l->addr || !ad)) { errno = EADDRINUSE; return -1; }
    if (auto tw = timeWait.find(po); tw != timeWait.end() && tw->second > now && !s->reuse) { errno = EADDRINUSE; return -1; }
    s->addr = ad;
    s->port = po;
    s->st = SocketFile::St::bound;
    return 0;
}

int Kernel::k_listen(int fd)
{
    ENTER("listen", fd);
    auto s = as<SocketFile>(fd);
    if (!s) { errno = EBADF; return -1; }
    s->st = SocketFile::St::listening;
    return 0;
}

int Kernel::k_accept(int fd, int flags, sockaddr* a, unsigned* al)
{
    ENTER("accept", fd);
    auto s = as<SocketFile>(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->st != SocketFile::St::listening) { errno = EINVAL; return -1; }
    if (s->backlog.empty())
    {
        if (!s->nonblock) report("accept would block the event loop");
        errno = EAGAIN;
        return -1;
    }
    auto p = s->backlog.front();
    s->backlog.pop_front();
    auto c = std::make_shared<SocketFile>();
    c->kind = File::Kind::socket;
    c->st = SocketFile::St::connected;
    c->addr = s->addr;
    c->port = s->port;
    c->incoming = true;
    c->nonblock = flags & SOCK_NONBLOCK;
    int nfd = alloc(c);
    c->peer = p;
    p->accepted = true;
    p->sock = c;
    p->sockUid = c->uid;
    c->rx = p->pendingRx;
    if (p->pendingFin) { c->fin = true; c->peerGone = true; }
    if (p->pendingReset) { c->reset = true; c->err = ECONNRESET; c->rx.clear(); }
    if (a && al && *al >= sizeof(sockaddr_in))
    {
        sockaddr_in in{};
        in.sin_family = AF_INET;
        std::memcpy(a, &in, sizeof in);
        *al = sizeof in;
    }
    return nfd;
}

long Kernel::k_read(int fd, void* buf, unsigned long n, int flags)
{
    ENTER("read", fd);
    auto f = get(fd);
    if (!f) { errno = EBADF; return -1; }
    bool const nb = f->nonblock || (flags & MSG_DONTWAIT);
    if (auto e = std::dynamic_pointer_cast<EventFile>(f))
    {
        if (n < 8) { errno = EINVAL; return -1; }
        if (!e->count)
        {
            if (!nb) report("read of an empty eventfd would block the event loop");
            errno = EAGAIN;
            return -1;
        }
        std::uint64_t const v = e->semaphore ? 1 : e->count;
        std::memcpy(buf, &v, 8);
        e->count -= v;
        wake(*e, EPOLLOUT);
        return 8;
    }
    if (auto t = std::dynamic_pointer_cast<TimerFile>(f))
    {
        if (n < 8) { errno = EINVAL; return -1; }
        if (!t->expirations)
        {
            if (!nb) report("read of an unexpired timerfd would block the event loop");
            errno = EAGAIN;
            return -1;
        }
        std::memcpy(buf, &t->expirations, 8);
        t->expirations = 0;
        return 8;
    }
    auto s = std::dynamic_pointer_cast<SocketFile>(f);
    if (!s) { errno = EINVAL; return -1; }
    if (s->err) { errno = s->err; s->err = 0; return -1; }
    if (s->st != SocketFile::St::connected) { errno = ENOTCONN; return -1; }
    if (!s->rx.empty())
    {
        unsigned long k = std::min<unsigned long>(n, s->rx.size());
        // touch the destination through a checked path so that a lying length is seen by the sanitizer
        std::memcpy(buf, s->rx.data(), k);
        if (!(flags & MSG_PEEK)) s->rx.erase(0, k);
        return k;
    }
    if (s->fin || s->reset) return 0;
    if (n == 0) return 0;
    if (!nb) report("read of an empty socket would block the event loop");
    errno = EAGAIN;
    return -1;
}

long Kernel::k_write(int fd, void const* buf, unsigned long n, int flags)
{
    ENTER("write", fd);
    auto f = get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (auto e = std::dynamic_pointer_cast<EventFile>(f))
    {
        if (n < 8) { errno = EINVAL; return -1; }
        std::uint64_t v;
        std::memcpy(&v, buf, 8);
        e->count += v;
        wake(*e, EPOLLIN);
        return 8;
    }
    auto s = std::dynamic_pointer_cast<SocketFile>(f);
    if (!s) { errno = EINVAL; return -1; }
    if (s->err) { errno = s->err; s->err = 0; return -1; }
    if (s->reset || s->st != SocketFile::St::connected || s->shutWr)
    {
        if (!(flags & MSG_NOSIGNAL))
        {
            struct sigaction sa;
            ::sigaction(SIGPIPE, nullptr, &sa);
            if (sa.sa_handler == SIG_DFL) report("write to a dead connection raises SIGPIPE and kills the process");
        }
        errno = EPIPE;
        return -1;
    }
    std::string b(static_cast<char const*>(buf), n); // reads all bytes under the sanitizer
    if (s->txLimit >= 0)
    {
        if (s->txLimit == 0) { errno = EAGAIN; return -1; }
        if ((std::int64_t)b.size() > s->txLimit) b.resize(s->txLimit);
        s->txLimit -= b.size();
    }
    if (s->peer) s->peer->got += b;
    if (s->peerGone)
    {
        s->reset = true;
        s->err = EPIPE;
        s->rx.clear();
        wake(*s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
    }
    return b.size();
}

int Kernel::k_epoll_create()
{
    ENTER("epoll_create", -1);
    auto e = std::make_shared<EpollFile>();
    e->kind = File::Kind::epoll;
    return alloc(e);
}

int Kernel::k_epoll_ctl(int ep, int op, int fd, epoll_event* ev)
{
    ENTER("epoll_ctl", fd);
    auto e = as<EpollFile>(ep);
    auto f = get(fd);
    if (!e || !f) { errno = EBADF; return -1; }
    auto it = e->regs.find(fd);
    switch (op)
    {
    case EPOLL_CTL_ADD:
        if (it != e->regs.end()) { errno = EEXIST; return -1; }
        e->regs[fd] = Reg{fd, f->uid, ev->events, ev->data};
        f->watchers.push_back({e.get(), fd});
        break;
    case EPOLL_CTL_MOD:
        if (it == e->regs.end()) { errno = ENOENT; return -1; }
        it->second.interest = ev->events;
        it->second.data = ev->data;
        break;
    case EPOLL_CTL_DEL:
        if (it == e->regs.end()) { errno = ENOENT; return -1; }
        e->regs.erase(it);
        e->ready.erase(std::remove(e->ready.begin(), e->ready.end(), fd), e->ready.end());
        f->watchers.erase(std::remove_if(f->watchers.begin(), f->watchers.end(), [&](auto& w) { return w.first == e.get(); }), f->watchers.end());
        return 0;
    default:
        errno = EINVAL;
        return -1;
    }
    if (f->level() & (ev->events | EPOLLERR | EPOLLHUP)) pushReady(*e, fd);
    return 0;
}

bool Kernel::hasEvents(int ep)
{
    auto e = as<EpollFile>(ep);
    if (!e) return true;
    for (int fd : e->ready)
    {
        auto r = e->regs.find(fd);
        auto f = get(fd);
        if (r != e->regs.end() && f && (f->level() & (r->second.interest | EPOLLERR | EPOLLHUP))) return true;
    }
    return false;
}

int Kernel::k_epoll_wait(int ep, epoll_event* out, int max, int timeout)
{
    ++calls;
    if (onCall) onCall("epoll_wait", ep);
    auto e = as<EpollFile>(ep);
    if (!e) { errno = EBADF; return -1; }
    for (;;)
    {
        // drop entries that are not ready any more
        for (auto it = e->ready.begin(); it != e->ready.end();)
        {
            auto r = e->regs.find(*it);
            auto f = get(*it);
            if (r == e->regs.end() || !f || !(f->level() & (r->second.interest | EPOLLERR | EPOLLHUP))) it = e->ready.erase(it);
            else ++it;
        }
        if (!e->ready.empty())
        {
            unsigned lim = std::min<unsigned>(max, e->ready.size());
            if (batchLimit) lim = std::max(1u, std::min(lim, batchLimit(*e, lim)));
            if (fault) { if (int fe = fault("epoll_wait", ep)) { errno = fe; return -1; } }
            std::vector<epoll_event> b;
            std::deque<int> keep;
            for (unsigned i = 0; i < lim; ++i)
            {
                int fd = e->ready.front();
                e->ready.pop_front();
                Reg& r = e->regs[fd];
                epoll_event ev{};
                ev.events = get(fd)->level() & (r.interest | EPOLLERR | EPOLLHUP);
                ev.data = r.data;
                b.push_back(ev);
                if (!(r.interest & (EPOLLET | EPOLLONESHOT))) keep.push_back(fd);
            }
            for (int fd : keep) e->ready.push_back(fd);
            if (onBatch) onBatch(*e, b);
            std::copy(b.begin(), b.end(), out);
            return b.size();
        }
        if (timeout == 0) return 0;
        if (Fiber* f = Fiber::current())
        {
            if (closing) return 0;
            f->idle = true;
            f->epfd = ep;
            Fiber::yield();
            f->idle = false;
            e = as<EpollFile>(ep);
            if (!e) { errno = EBADF; return -1; }
            if (closing) return 0;
            if (f->expire) { f->expire = false; return 0; }
            continue;
        }
        if (!onIdle || !onIdle(*e)) return 0;
    }
}

int Kernel::k_eventfd(unsigned v, int flags)
{
    ENTER("eventfd", -1);
    auto e = std::make_shared<EventFile>();
    e->kind = File::Kind::event;
    e->count = v;
    e->nonblock = flags & EFD_NONBLOCK;
    e->semaphore = flags & EFD_SEMAPHORE;
    return alloc(e);
}

int Kernel::k_timerfd_create(int flags)
{
    ENTER("timerfd_create", -1);
    auto t = std::make_shared<TimerFile>();
    t->kind = File::Kind::timer;
    t->nonblock = flags & TFD_NONBLOCK;
    return alloc(t);
}

int Kernel::k_timerfd_settime(int fd, int flags, itimerspec const* nv, itimerspec*)
{
    ENTER("timerfd_settime", fd);
    auto t = as<TimerFile>(fd);
    if (!t) { errno = EBADF; return -1; }
    if (nv->it_value.tv_nsec < 0 || nv->it_value.tv_nsec > 999999999 || nv->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    std::int64_t v = nv->it_value.tv_sec * 1000000000LL + nv->it_value.tv_nsec;
    t->expirations = 0;
    if (v == 0) { t->armed = false; return 0; }
    if (nv->it_interval.tv_nsec < 0 || nv->it_interval.tv_nsec > 999999999 || nv->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
    t->armed = true;
    t->armedAt = now;
    t->interval = nv->it_interval.tv_sec * 1000000000LL + nv->it_interval.tv_nsec;
    t->deadline = (flags & TFD_TIMER_ABSTIME) ? (t->realtime ? v - 1700000000000000000LL : v) : now + v;
    return 0;
}

} // namespace sim

// ---------------------------------------------------------------- fibers

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_start_switch_fiber(void**, void const*, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void*, void const**, size_t*);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#define FIBER_ASAN 1
#endif

// minimal context switch (the libc one is intercepted by the sanitizer and makes system calls)
extern "C" void vf_switch(void** save, void* to);
asm(R"(
.text
.globl vf_switch
.type vf_switch,@function
vf_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vf_switch,.-vf_switch
)");

namespace sim
{

static constexpr size_t stackSize = 1 << 18;
static std::vector<void*> stackPool;

// thread-local state: a fiber stands for a thread of its own
struct Tls
{
    static char* block() { find(); return base; }
    static std::size_t size() { find(); return len; }
    static char const* image() { find(); return img; }
    static std::size_t imageSize() { find(); return imgLen; }
    std::string data;
    void* exc[2] = {nullptr, nullptr};
    int err = 0;
    Tls() { data.assign(image() ? image() : "", imageSize()); data.resize(size()); }
    void exchange()
    {
        std::swap_ranges(data.begin(), data.end(), block());
        void* was[2];
        void* g = abi::__cxa_get_globals();
        std::memcpy(was, g, sizeof was);
        std::memcpy(g, exc, sizeof exc);
        std::memcpy(exc, was, sizeof exc);
        std::swap(err, errno);
    }
private:
    static inline char* base = nullptr;
    static inline char const* img = nullptr;
    static inline std::size_t len = 0, imgLen = 0;
    static inline bool found = false;
    static void find()
    {
        if (found) return;
        found = true;
        dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
            for (int k = 0; k < i->dlpi_phnum; ++k)
                if (i->dlpi_phdr[k].p_type == PT_TLS)
                {
                    base = static_cast<char*>(i->dlpi_tls_data);
                    img = reinterpret_cast<char const*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
                    len = i->dlpi_phdr[k].p_memsz;
                    imgLen = i->dlpi_phdr[k].p_filesz;
                }
            return 1;   // the program itself is the first
        }, nullptr);
    }
};

struct Fiber::Impl
{
    Tls tls;
    void* ctx = nullptr;
    void* back = nullptr;
    std::function<void()> fn;
    void* stack = nullptr;
    Fiber* prev = nullptr;
    void* fake = nullptr;
    void* backFake = nullptr;
    void const* backStack = nullptr;
    size_t backSize = 0;
};

static Fiber* g_cur = nullptr;
static Fiber* g_start = nullptr;
static Fiber::Impl* g_startImpl = nullptr;

Fiber* Fiber::current() { return g_cur; }

static void fiberMain()
{
    Fiber* f = g_start;
    Fiber::Impl* i = g_startImpl;
#ifdef FIBER_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &i->backStack, &i->backSize);
#endif
    i->fn();
    f->done = true;
#ifdef FIBER_ASAN
    __sanitizer_start_switch_fiber(nullptr, i->backStack, i->backSize);
#endif
    vf_switch(&i->ctx, i->back);
    abort();
}

Fiber::Fiber(std::function<void()> fn) : impl(std::make_unique<Impl>())
{
    impl->fn = std::move(fn);
    if (stackPool.empty())
    {
        void* p = mmap(nullptr, stackSize + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(p, 4096, PROT_NONE);
        stackPool.push_back(static_cast<char*>(p) + 4096);
    }
    impl->stack = stackPool.back();
    stackPool.pop_back();
    auto top = reinterpret_cast<std::uint64_t*>(static_cast<char*>(impl->stack) + stackSize);
    *--top = 0;                                             // return address of fiberMain (also aligns the stack)
    *--top = reinterpret_cast<std::uint64_t>(&fiberMain);
    for (int i = 0; i < 6; ++i) *--top = 0;
    impl->ctx = top;
}

Fiber::~Fiber()
{
    // an unfinished fiber is never resumed, so its stack can be used again as well
#ifdef FIBER_ASAN
    __asan_unpoison_memory_region(impl->stack, stackSize);
#endif
    stackPool.push_back(impl->stack);
}

void Fiber::resume()
{
    if (done) return;
    impl->prev = g_cur;
    g_cur = this;
    g_start = this;
    g_startImpl = impl.get();
#ifdef FIBER_ASAN
    __sanitizer_start_switch_fiber(&impl->backFake, impl->stack, stackSize);
#endif
    impl->tls.exchange();
    vf_switch(&impl->back, impl->ctx);
    impl->tls.exchange();
#ifdef FIBER_ASAN
    __sanitizer_finish_switch_fiber(impl->backFake, nullptr, nullptr);
#endif
    g_cur = impl->prev;
}

void Fiber::yield()
{
    Fiber* f = g_cur;
    Impl* i = f->impl.get();
#ifdef FIBER_ASAN
    __sanitizer_start_switch_fiber(&i->fake, i->backStack, i->backSize);
#endif
    vf_switch(&i->ctx, i->back);
#ifdef FIBER_ASAN
    __sanitizer_finish_switch_fiber(i->fake, &i->backStack, &i->backSize);
#endif
}

} // namespace sim

// ---------------------------------------------------------------- link-time interposition

using sim::Kernel;

static bool simFd(int fd) { return Kernel::cur && (fd >= Kernel::cur->fdBase || fd < 0); }

extern "C"
{
int __real_close(int);
long __real_read(int, void*, unsigned long);
long __real_write(int, void const*, unsigned long);
int __real_fcntl(int, int, ...);
int __real_clock_gettime(clockid_t, timespec*);
int __real_gettimeofday(timeval*, void*);
int __real_nanosleep(timespec const*, timespec*);
int __real_pthread_create(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_setaffinity_np(pthread_t, size_t, cpu_set_t const*);
int __real_pthread_getaffinity_np(pthread_t, size_t, cpu_set_t*);
int __real_poll(pollfd*, nfds_t, int);
time_t __real_time(time_t*);

int __wrap_close(int fd) { return simFd(fd) ? Kernel::cur->k_close(fd) : __real_close(fd); }
long __wrap_read(int fd, void* b, unsigned long n) { return simFd(fd) ? Kernel::cur->k_read(fd, b, n, 0) : __real_read(fd, b, n); }
long __wrap_write(int fd, void const* b, unsigned long n) { return simFd(fd) ? Kernel::cur->k_write(fd, b, n, 0) : __real_write(fd, b, n); }
long __wrap_recv(int fd, void* b, unsigned long n, int fl) { return Kernel::cur->k_read(fd, b, n, fl); }
long __wrap_recvfrom(int fd, void* b, unsigned long n, int fl, sockaddr*, socklen_t*) { return Kernel::cur->k_read(fd, b, n, fl); }
long __wrap_send(int fd, void const* b, unsigned long n, int fl) { return Kernel::cur->k_write(fd, b, n, fl); }
long __wrap_sendto(int fd, void const* b, unsigned long n, int fl, sockaddr const*, socklen_t) { return Kernel::cur->k_write(fd, b, n, fl); }
static std::string gather(iovec const* v, unsigned long n)
{
    std::string s;
    for (unsigned long i = 0; i < n; ++i) s.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len);
    return s;
}
static long scatter(std::string const& s, iovec const* v, unsigned long n)
{
    unsigned long pos = 0;
    for (unsigned long i = 0; i < n && pos < s.size(); ++i)
    {
        unsigned long k = std::min<unsigned long>(v[i].iov_len, s.size() - pos);
        std::memcpy(v[i].iov_base, s.data() + pos, k);
        pos += k;
    }
    return pos;
}
long __wrap_sendmsg(int fd, msghdr const* m, int fl)
{
    std::string s = gather(m->msg_iov, m->msg_iovlen);
    return Kernel::cur->k_write(fd, s.data(), s.size(), fl);
}
long __wrap_writev(int fd, iovec const* v, int n)
{
    std::string s = gather(v, n);
    return Kernel::cur->k_write(fd, s.data(), s.size(), 0);
}
static long rv(int fd, iovec const* v, unsigned long n, int fl)
{
    unsigned long tot = 0;
    for (unsigned long i = 0; i < n; ++i) tot += v[i].iov_len;
    std::string s(tot, 0);
    long r = Kernel::cur->k_read(fd, s.data(), tot, fl);
    if (r > 0) { s.resize(r); scatter(s, v, n); }
    return r;
}
long __wrap_readv(int fd, iovec const* v, int n) { return rv(fd, v, n, 0); }
long __wrap_recvmsg(int fd, msghdr* m, int fl) { return rv(fd, m->msg_iov, m->msg_iovlen, fl); }
int __wrap_socket(int domain, int type, int proto)
{
    int const t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
    if (domain != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    if (t != SOCK_STREAM || (proto && proto != IPPROTO_TCP)) { errno = EPROTONOSUPPORT; return -1; }
    int fd = Kernel::cur->k_socket();
    if (fd >= 0 && (type & SOCK_NONBLOCK)) Kernel::cur->get(fd)->nonblock = true;
    return fd;
}
int __wrap_connect(int fd, sockaddr const* a, socklen_t n) { return Kernel::cur->k_connect(fd, a, n); }
int __wrap_bind(int fd, sockaddr const* a, socklen_t n) { return Kernel::cur->k_bind(fd, a, n); }
int __wrap_listen(int fd, int) { return Kernel::cur->k_listen(fd); }
int __wrap_accept(int fd, sockaddr* a, socklen_t* n) { return Kernel::cur->k_accept(fd, 0, a, n); }
int __wrap_accept4(int fd, sockaddr* a, socklen_t* n, int fl) { return Kernel::cur->k_accept(fd, fl, a, n); }
int __wrap_shutdown(int fd, int how)
{
    auto s = Kernel::cur->as<sim::SocketFile>(fd);
    if (!s) { errno = ENOTSOCK; return -1; }
    if (how != SHUT_RD) { s->shutWr = true; if (s->peer) s->peer->sutClosed = true; }
    return 0;
}
int __wrap_setsockopt(int fd, int level, int name, void const* v, socklen_t n)
{
    auto s = Kernel::cur->as<sim::SocketFile>(fd);
    if (!s) { errno = Kernel::cur->get(fd) ? ENOTSOCK : EBADF; return -1; }
    if (Kernel::cur->fault) { if (int e = Kernel::cur->fault("setsockopt", fd)) { errno = e; return -1; } }
    if (level == SOL_SOCKET && (name == SO_REUSEADDR || name == SO_REUSEPORT) && n >= sizeof(int)) s->reuse = *static_cast<int const*>(v) != 0;
    return 0;
}
int __wrap_getsockopt(int fd, int, int name, void* v, socklen_t*)
{
    auto s = Kernel::cur->as<sim::SocketFile>(fd);
    if (!s) { errno = ENOTSOCK; return -1; }
    int val = 0;
    if (name == SO_ERROR) { val = s->err; s->err = 0; }
    std::memcpy(v, &val, sizeof val);
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!simFd(fd)) return __real_fcntl(fd, cmd, arg);
    auto k = Kernel::cur;
    if (k->onCall) k->onCall("fcntl", fd);
    if (k->fault) { if (int e = k->fault("fcntl", fd)) { errno = e; return -1; } }
    auto f = k->get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; return 0; }
    if (cmd == F_GETFL) return f->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
    return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return __wrap_fcntl(fd, cmd, arg);
}
int __wrap_epoll_create(int) { return Kernel::cur->k_epoll_create(); }
int __wrap_epoll_create1(int) { return Kernel::cur->k_epoll_create(); }
int __wrap_epoll_ctl(int e, int op, int fd, epoll_event* ev) { return Kernel::cur->k_epoll_ctl(e, op, fd, ev); }
int __wrap_epoll_wait(int e, epoll_event* ev, int n, int t) { return Kernel::cur->k_epoll_wait(e, ev, n, t); }
int __wrap_epoll_pwait(int e, epoll_event* ev, int n, int t, sigset_t const*) { return Kernel::cur->k_epoll_wait(e, ev, n, t); }
int __wrap_eventfd(unsigned v, int fl) { return Kernel::cur->k_eventfd(v, fl); }
int __wrap_eventfd_write(int fd, eventfd_t v) { return Kernel::cur->k_write(fd, &v, 8, 0) == 8 ? 0 : -1; }
int __wrap_eventfd_read(int fd, eventfd_t* v) { return Kernel::cur->k_read(fd, v, 8, 0) == 8 ? 0 : -1; }
int __wrap_timerfd_create(int c, int fl)
{
    int const fd = Kernel::cur->k_timerfd_create(fl);
    if (auto t = Kernel::cur->as<sim::TimerFile>(fd)) t->realtime = c == CLOCK_REALTIME;
    return fd;
}
int __wrap_timerfd_settime(int fd, int fl, itimerspec const* n, itimerspec* o) { return Kernel::cur->k_timerfd_settime(fd, fl, n, o); }
int __wrap_clock_gettime(clockid_t c, timespec* t)
{
    if (!Kernel::cur) return __real_clock_gettime(c, t);
    if (Kernel::cur->fault) { if (int e = Kernel::cur->fault("clock_gettime", -1)) { errno = e; return -1; } }
    std::int64_t v = Kernel::cur->now + (c == CLOCK_REALTIME ? 1700000000000000000LL : 0);
    t->tv_sec = v / 1000000000LL;
    t->tv_nsec = v % 1000000000LL;
    return 0;
}
int __wrap_gettimeofday(timeval* t, void* z)
{
    if (!Kernel::cur) return __real_gettimeofday(t, z);
    std::int64_t v = Kernel::cur->now + 1700000000000000000LL;
    t->tv_sec = v / 1000000000LL;
    t->tv_usec = v % 1000000000LL / 1000;
    return 0;
}
time_t __wrap_time(time_t* t)
{
    if (!Kernel::cur) return __real_time(t);
    time_t v = (Kernel::cur->now + 1700000000000000000LL) / 1000000000LL;
    if (t) *t = v;
    return v;
}
int __wrap_nanosleep(timespec const* t, timespec* r)
{
    if (!Kernel::cur) return __real_nanosleep(t, r);
    std::int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec;
    if (sim::onSleep) sim::onSleep(ns);
    else Kernel::cur->advanceTo(Kernel::cur->now + ns);
    return 0;
}
int __wrap_clock_nanosleep(clockid_t, int flags, timespec const* t, timespec* r)
{
    if (!flags || !Kernel::cur) return __wrap_nanosleep(t, r);
    std::int64_t const d = t->tv_sec * 1000000000LL + t->tv_nsec - Kernel::cur->now;
    if (d <= 0) return 0;
    timespec rel{(time_t)(d / 1000000000LL), (long)(d % 1000000000LL)};
    return __wrap_nanosleep(&rel, nullptr);
}
int __wrap_usleep(unsigned us)
{
    timespec t{us / 1000000, (long)(us % 1000000) * 1000};
    return __wrap_nanosleep(&t, nullptr);
}
unsigned __wrap_sleep(unsigned s)
{
    timespec t{(time_t)s, 0};
    __wrap_nanosleep(&t, nullptr);
    return 0;
}
int __wrap_pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*fn)(void*), void* arg)
{
    if (!Kernel::cur) return __real_pthread_create(t, a, fn, arg);
    if (sim::onThreadCreate) { unsigned long id = 0; int r = sim::onThreadCreate(fn, arg, &id); *t = id; return r; }
    *t = 1;
    return 0;
}
int __wrap_pthread_join(pthread_t t, void** r)
{
    if (!Kernel::cur) return __real_pthread_join(t, r);
    if (sim::onThreadJoin) return sim::onThreadJoin(t);
    return 0;
}
static std::string affinity;
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, cpu_set_t const* c)
{
    if (!Kernel::cur) return __real_pthread_setaffinity_np(t, n, c);
    affinity.assign(reinterpret_cast<char const*>(c), n);
    return 0;
}
int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t* c)
{
    if (!Kernel::cur) return __real_pthread_getaffinity_np(t, n, c);
    std::memcpy(c, affinity.data(), std::min(n, affinity.size()));
    return 0;
}
// calls the code does not make today, so that an equivalent way to write it meets the same kernel
int __real_ioctl(int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (!simFd(fd)) return __real_ioctl(fd, req, arg);
    auto f = Kernel::cur->get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (req == FIONBIO) { f->nonblock = *static_cast<int*>(arg) != 0; return 0; }
    if (req == FIONREAD) { auto s = Kernel::cur->as<sim::SocketFile>(fd); *static_cast<int*>(arg) = s ? (int)s->rx.size() : 0; return 0; }
    errno = ENOTTY;
    return -1;
}
static int nameOf(int fd, sockaddr* a, socklen_t* n, bool own)
{
    auto s = Kernel::cur->as<sim::SocketFile>(fd);
    if (!s) { errno = Kernel::cur->get(fd) ? ENOTSOCK : EBADF; return -1; }
    if (!own && s->st != sim::SocketFile::St::connected) { errno = ENOTCONN; return -1; }
    sockaddr_in in{};
    in.sin_family = AF_INET;
    bool const addressed = own == (s->st == sim::SocketFile::St::listening || s->st == sim::SocketFile::St::bound || s->incoming);
    in.sin_addr.s_addr = htonl(addressed && s->addr ? s->addr : 0x7f000001);
    in.sin_port = htons(addressed ? s->port : 40000 + fd % 1000);
    std::memcpy(a, &in, std::min<socklen_t>(*n, sizeof in));
    *n = sizeof in;
    return 0;
}
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* n) { return nameOf(fd, a, n, true); }
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* n) { return nameOf(fd, a, n, false); }
int __wrap_timerfd_gettime(int fd, itimerspec* t)
{
    auto f = Kernel::cur->as<sim::TimerFile>(fd);
    if (!f) { errno = Kernel::cur->get(fd) ? EINVAL : EBADF; return -1; }
    std::memset(t, 0, sizeof *t);
    if (f->armed && f->deadline > Kernel::cur->now)
    {
        t->it_value.tv_sec = (f->deadline - Kernel::cur->now) / 1000000000LL;
        t->it_value.tv_nsec = (f->deadline - Kernel::cur->now) % 1000000000LL;
    }
    return 0;
}
std::int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
std::int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return Kernel::cur ? Kernel::cur->now : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
std::int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return Kernel::cur ? Kernel::cur->now + 1700000000000000000LL : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
// std::thread (its state class is private: same layout)
} // extern "C"
namespace { struct ThreadState { virtual ~ThreadState() {} virtual void _M_run() = 0; }; }
extern "C" {
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread*, std::unique_ptr<ThreadState>&, void (*)());
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* self, std::unique_ptr<ThreadState>& st, void (*dep)())
{
    if (!Kernel::cur) { __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, st, dep); return; }
    pthread_t id = 0;
    void* (*fn)(void*) = [](void* p) -> void* { std::unique_ptr<ThreadState> s(static_cast<ThreadState*>(p)); s->_M_run(); return nullptr; };
    if (__wrap_pthread_create(&id, nullptr, fn, st.release())) std::__throw_system_error(EAGAIN);
    static_assert(sizeof(std::thread) == sizeof(pthread_t));
    std::memcpy(static_cast<void*>(self), &id, sizeof id);
}
void __real__ZNSt6thread4joinEv(std::thread*);
void __wrap__ZNSt6thread4joinEv(std::thread* self)
{
    if (!Kernel::cur) { __real__ZNSt6thread4joinEv(self); return; }
    pthread_t id;
    std::memcpy(&id, static_cast<void*>(self), sizeof id);
    __wrap_pthread_join(id, nullptr);
    id = 0;
    std::memcpy(static_cast<void*>(self), &id, sizeof id);
}
// Log lines are formatted as deployed (the Logger's own levels apply), but not written.
void __real__ZN3app6Logger8dispatchEPKcNS_8LogLevelENS_7LogTaskES2_i(void*, char const*, int, int, char const*, int) __attribute__((weak));
void __wrap__ZN3app6Logger8dispatchEPKcNS_8LogLevelENS_7LogTaskES2_i(void* self, char const* msg, int lvl, int task, char const* file, int line)
{
    if (sim::logs && __real__ZN3app6Logger8dispatchEPKcNS_8LogLevelENS_7LogTaskES2_i) __real__ZN3app6Logger8dispatchEPKcNS_8LogLevelENS_7LogTaskES2_i(self, msg, lvl, task, file, line);
}
int __wrap_rand() { static unsigned dummy = 1; unsigned& randState = Kernel::cur ? Kernel::cur->randState : dummy; randState = randState * 1103515245u + 12345u; return (randState >> 1) & 0x7fffffff; }
void __wrap_srand(unsigned) {}
} // extern "C"
