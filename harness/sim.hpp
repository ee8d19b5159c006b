// Simulated kernel: deterministic in-memory implementation of the system calls the reactor layer uses
// (sockets, epoll, eventfd, timerfd, clocks, sleeping, thread creation).  The implementation under test is linked
// with -Wl,--wrap=<call>, so the real code of /repo runs unmodified on top of it.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/epoll.h>
#include <netinet/in.h>

namespace sim
{

struct Reg;
struct EpollFile;

struct File
{
    enum class Kind { epoll, event, timer, socket };
    Kind kind;
    int fd = -1;
    std::uint64_t uid = 0;          // never reused
    bool nonblock = false;
    std::vector<std::pair<EpollFile*, int>> watchers; // (epoll, registered fd)
    virtual ~File() {}
    virtual std::uint32_t level() const = 0;
};
using FilePtr = std::shared_ptr<File>;

struct Reg { int fd; std::uint64_t uid; std::uint32_t interest; epoll_data_t data; };

struct EpollFile : File
{
    std::map<int, Reg> regs;
    std::deque<int> ready;          // fds on the ready list, in order
    std::uint32_t level() const override { return 0; }
};

struct EventFile : File
{
    std::uint64_t count = 0;
    bool semaphore = false;
    std::uint32_t level() const override { return count ? EPOLLIN | EPOLLOUT : EPOLLOUT; }
};

struct TimerFile : File
{
    bool armed = false;
    std::int64_t deadline = 0;      // ns, monotonic
    std::uint64_t expirations = 0;
    std::int64_t armedAt = 0;
    std::int64_t interval = 0;      // periodic when not 0
    bool realtime = false;          // CLOCK_REALTIME
    std::uint32_t level() const override { return expirations ? EPOLLIN : 0; }
};

struct Peer;
using PeerPtr = std::shared_ptr<Peer>;

struct SocketFile : File
{
    enum class St { fresh, bound, listening, connecting, connected, failed };
    St st = St::fresh;
    std::uint32_t addr = 0;         // host order
    std::uint16_t port = 0;
    std::deque<PeerPtr> backlog;
    std::string rx;
    bool fin = false;               // peer sent FIN
    bool reset = false;             // connection is dead in both directions
    int err = 0;                    // pending error
    bool peerGone = false;          // peer closed completely: data sent to it provokes a RST
    bool shutWr = false;
    bool reuse = false;             // SO_REUSEADDR
    bool incoming = false;          // created by accept()
    std::int64_t txLimit = -1;      // -1: unlimited; otherwise number of bytes the kernel still accepts
    PeerPtr peer;
    std::uint32_t level() const override;
};

// the remote end of a connection, operated by the harness
struct Peer : std::enable_shared_from_this<Peer>
{
    int id = 0;
    std::string got;                // all bytes received from the implementation
    bool sutClosed = false;         // the implementation closed its end
    bool closed = false;            // we closed (FIN) our end
    bool didReset = false;
    bool accepted = false;          // accepted by the implementation (for incoming ones)
    std::uint64_t sockUid = 0;
    std::weak_ptr<SocketFile> sock; // set once accepted / connected
    std::string pendingRx;          // data sent before accept()
    bool pendingFin = false;
    bool pendingReset = false;
    std::uint32_t addr = 0;         // address the implementation connected to
    std::uint16_t port = 0;

    void send(std::string const&, bool wake = true);    // bytes towards the implementation
    void close();                   // orderly close
    void reset();                   // RST
    void limitTx(std::int64_t);     // the kernel will accept only so many more bytes from the implementation
    bool alive() const { return !sutClosed && !closed && !didReset; }
};

struct Fault { int err; };          // errno to fail with

class Kernel
{
public:
    Kernel();
    ~Kernel();

    static Kernel* cur;

    std::int64_t now = 1000000000000LL; // ns
    std::map<int, FilePtr> files;
    std::uint64_t nextUid = 1;
    int fdBase = 2000;

    // --- world side
    PeerPtr dial(std::uint16_t port);                    // incoming connection to a listener; null if nobody listens
    PeerPtr dialAny();                                   // to the only listener
    std::vector<std::shared_ptr<SocketFile>> connecting();  // outgoing connections in progress
    PeerPtr establish(std::shared_ptr<SocketFile> const&);
    void refuse(std::shared_ptr<SocketFile> const&);
    std::vector<std::shared_ptr<SocketFile>> listeners();
    bool nextDeadline(std::int64_t&) const;
    void advanceTo(std::int64_t);
    bool fireNextTimer();                                // advance to the earliest deadline
    std::vector<PeerPtr> peers;

    unsigned countOpen(File::Kind) const;
    std::vector<std::shared_ptr<TimerFile>> armedTimers() const;

    // hooks
    std::function<int(char const*, int fd)> fault;       // returns errno to fail the call with, 0 to proceed
    std::function<bool(EpollFile&)> onIdle;              // called when epoll_wait has nothing to report: perform an
                                                         // environment action; return false to end (caller stops loop)
    std::function<void(EpollFile&, std::vector<epoll_event>&)> onBatch; // may reorder / the batch (not drop)
    std::function<unsigned(EpollFile&, unsigned)> batchLimit; // how many events to report in one call
    std::function<void(char const*, int)> onCall;        // observation of calls (scheduling points)
    std::function<void(std::string const&)> anomaly;     // kernel-visible misuse, e.g. double close, SIGPIPE, blocking
    std::function<int()> connectResult;                  // 0: in progress, 1: connected at once, otherwise -errno

    std::map<std::uint16_t, std::int64_t> timeWait;      // port -> end of TIME_WAIT of a connection closed by the server
    bool hasEvents(int ep);                              // epoll_wait on ep would return at once

    bool closing = false;                                // epoll_wait returns 0 instead of waiting (end of execution)

    // statistics / recorded misuse
    std::vector<std::string> anomalies;
    std::uint64_t calls = 0;
    unsigned randState = 1;

    // --- implementation side
    int alloc(FilePtr);
    FilePtr get(int fd);
    template <class T> std::shared_ptr<T> as(int fd);
    void wake(File&, std::uint32_t mask);
    void report(std::string const&);

    int k_close(int);
    int k_socket();
    int k_connect(int, sockaddr const*, unsigned);
    int k_bind(int, sockaddr const*, unsigned);
    int k_listen(int);
    int k_accept(int, int flags, sockaddr*, unsigned*);
    long k_read(int, void*, unsigned long, int flags);
    long k_write(int, void const*, unsigned long, int flags);
    int k_epoll_create();
    int k_epoll_ctl(int, int, int, epoll_event*);
    int k_epoll_wait(int, epoll_event*, int, int timeout);
    int k_eventfd(unsigned, int);
    int k_timerfd_create(int);
    int k_timerfd_settime(int, int, itimerspec const*, itimerspec*);

private:
    void dropWatchers(File&);
    void pushReady(EpollFile&, int fd);
};

template <class T> std::shared_ptr<T> Kernel::as(int fd) { return std::dynamic_pointer_cast<T>(get(fd)); }

// real threads are only created through this when set (controlled scheduler); otherwise pthread_create only records
extern std::function<int(void* (*)(void*), void*, unsigned long*)> onThreadCreate;
extern std::function<int(unsigned long)> onThreadJoin;
extern bool logs;                   // write the implementation's log lines
extern std::function<void(std::int64_t ns)> onSleep;

// Cooperative threads: the loops of the implementation run as fibers, so that the harness is ordinary sequential code
// and "threads" are scheduled explicitly.
class Fiber
{
public:
    explicit Fiber(std::function<void()>);
    ~Fiber();
    void resume();                  // run until it yields or ends
    static void yield();            // back to the resumer
    static Fiber* current();
    bool done = false;
    bool idle = false;              // blocked in epoll_wait with nothing to report
    bool expire = false;            // the wait ends with a time-out
    int epfd = -1;                  // the epoll descriptor it last waited for
    struct Impl;
private:
    std::unique_ptr<Impl> impl;
};

} // namespace sim
