// The HTTP/3 client program, main() included, as the only process of a
// simulated operating system: sockets, name resolution, the event loop and the
// clock are the run's, and at the other end sits a scripted HTTP/3 server.
#include "gen.hpp"
#include "ref.hpp"
#include "ref_recv.hpp"
#include "server.hpp"
#include "stack.hpp"

#include <bnl/base/log.hpp>
#include <bnl/log/console.hpp>

#include <ctime>
#include <sys/time.h>

#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <deque>
#include <exception>
#include <fmt/format.h>
#include <iostream>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <set>
#include <signal.h>
#include <streambuf>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <systemd/sd-event.h>

extern "C" int
endpoint_main(int argc, char **argv);

struct sd_event_source {
  enum { IO, TIME, SIGNAL } kind = IO;
  unsigned refs = 1;
  bool floating = false;
  int enabled = SD_EVENT_ON;
  void *userdata = nullptr;
  int fd = -1;
  uint32_t events = 0;
  bool edge = false;
  uint64_t time = UINT64_MAX;
  sd_event_io_handler_t on_io = nullptr;
  sd_event_time_handler_t on_time = nullptr;
  sd_event_signal_handler_t on_signal = nullptr;
  sd_event *event = nullptr;
};

struct sd_event {
  unsigned refs = 0;
  std::list<sd_event_source *> sources;
  bool exit = false;
  int code = 0;
};

namespace qsim {

namespace {

using sim::Ctx;

struct Stop {}; // a breach was noted: leave the program

class Capture : public std::streambuf {
public:
  bytes text;
  size_t limit = SIZE_MAX; // the disk is full then
  bool full = false;

protected:
  int_type overflow(int_type c) override
  {
    Outside outside;
    if (c == traits_type::eof()) {
      return traits_type::not_eof(c);
    }
    if (text.size() >= limit) {
      full = true;
      return traits_type::eof();
    }
    text += static_cast<char>(c);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override
  {
    Outside outside;
    size_t room = limit - text.size();
    if (static_cast<size_t>(n) > room) {
      full = true;
      n = static_cast<std::streamsize>(room);
    }
    text.append(s, static_cast<size_t>(n));
    return n;
  }
};

// Where the logger writes to, in the place of the process's own.
class LogFile {
public:
  LogFile(Ctx &c, FILE *&place, size_t buffered)
    : ctx_(c)
    , place_(place)
    , previous_(place)
  {
    cookie_io_functions_t io{};
    io.write = &LogFile::write;
    file_ = fopencookie(this, "w", io);
    if (buffered == 0) {
      setvbuf(file_, nullptr, _IONBF, 0);
    } else {
      setvbuf(file_, buffer_, _IOFBF, buffered);
    }
    place_ = file_;
  }

  ~LogFile()
  {
    place_ = previous_;
    limit = SIZE_MAX;
    fclose(file_);
  }

  LogFile(const LogFile &) = delete;
  LogFile &operator=(const LogFile &) = delete;

  size_t limit = SIZE_MAX; // the disk is full then

private:
  static ssize_t write(void *cookie, const char *data, size_t size)
  {
    LogFile &self = *static_cast<LogFile *>(cookie);
    Outside outside;
    size_t n = std::min(size, self.limit - self.written_);
    self.written_ += n;
    self.ctx_.mix_bytes(data, n);
    if (self.ctx_.verbose && n != 0) {
      self.ctx_.note("log: %.*s", static_cast<int>(std::min<size_t>(n, 200)), data);
    }
    if (n < size) {
      SIM_COUNT("fault.log_disk_full");
      errno = ENOSPC;
      return n == 0 ? -1 : static_cast<ssize_t>(n);
    }
    return static_cast<ssize_t>(n);
  }

  Ctx &ctx_;
  FILE *&place_;
  FILE *previous_;
  FILE *file_ = nullptr;
  char buffer_[4096];
  size_t written_ = 0;
};

enum scenario {
  GOOD,
  ARGUMENTS,
  NO_HOST,
  NO_SOCKET,
  SILENT,
  REFUSED,
  BAD_RESPONSE,
  UNFINISHED,
  RESET,
  CLOSED,
  SEND_ERROR,
  RECV_ERROR,
  BAD_TLS,
  BAD_CONTROL,
  OUTPUT_FULL,
  SIGNALLED,
  SCENARIOS
};

class Program {
public:
  explicit Program(Ctx &c)
    : ctx(c)
  {}
  ~Program();

  void run();

  // The operating system.
  struct Socket {
    int family = 0;
    bool connected = false;
    std::deque<bytes> queue;
    int error = 0;
    bool blocked = false;
  };

  int socket(int family, int type, int protocol);
  int connect(int fd, const sockaddr *addr, socklen_t size);
  int setsockopt(int fd);
  int getsockopt(int fd, int level, int name, void *value, socklen_t *size);
  int name(int fd, bool peer, sockaddr *addr, socklen_t *size);
  int available(int fd, int *size);
  ssize_t send(int fd, const void *data, size_t size);
  ssize_t recv(int fd, void *data, size_t size);
  int close(int fd);
  int resolve(const char *node, const addrinfo *hints, addrinfo **out);
  void free_results(addrinfo *results);

  int loop(sd_event *e);
  uint64_t event_now() const { return (in_loop_ ? loop_now_ : now) / US; }

  Ctx &ctx;
  sd_event *event = nullptr;

private:
  void setup();
  void response();
  void server_app();
  void server_send();
  void happen(uint64_t until);
  uint64_t next_world() const;
  uint64_t next_timer(const sd_event *e) const;
  void edge(int fd);
  void icmp();
  Socket *find(int fd, const char *call);
  void track();
  void check_request();
  bool server_alive(uint64_t at) const { return at < dead_from_; }
  bytes address(const bytes &a, uint16_t port, sockaddr_storage &out) const;

  std::unique_ptr<Server> server_;
  Network net_;
  scenario scenario_ = GOOD;
  std::vector<bytes> args_;
  uint16_t port_ = 443;
  std::vector<bytes> addresses_;
  std::map<int, Socket> sockets_;
  std::set<addrinfo *> results_;
  int next_fd_ = 100;
  Capture out_;

  bool must_succeed_ = false;
  bool valid_ = false; // the response, as a whole
  bytes expected_;
  uint64_t fault_end_ = 0;
  uint64_t deadline_ = 0;
  uint64_t dead_from_ = NEVER;
  uint64_t act_at_ = NEVER; // the scenario's event
  uint64_t next_app_ = NEVER;
  uint64_t writable_at_ = NEVER;
  uint64_t icmp_at_ = NEVER;
  uint64_t loop_now_ = 0;
  bool in_loop_ = false;
  bool complete_ = false; // the client's transport has the whole response
  bool slow_ = false;
  bool signalled_ = false;
  unsigned steps_left_ = 12;
  unsigned blocks_ = 0;
  unsigned races_ = 0;
  unsigned stall_ = 0;
  unsigned spurious_ = 0;
  unsigned empty_ = 0;
  unsigned sends_ = 0;
  unsigned recvs_ = 0;
  unsigned fail_call_ = 0;
  int fail_errno_ = 0;
  int dns_error_ = 0;
  unsigned socket_fault_ = 0;
  uint64_t rounds_ = 0;
};

Program *os = nullptr;

Program::~Program()
{
  os = nullptr;
  if (event != nullptr) {
    for (sd_event_source *s : event->sources) {
      delete s;
    }
    delete event;
  }
  for (addrinfo *r : results_) {
    while (r != nullptr) {
      addrinfo *next = r->ai_next;
      delete reinterpret_cast<sockaddr_storage *>(r->ai_addr);
      delete r;
      r = next;
    }
  }
  now = 0;
}

// ------------------------------------------------------------ the system ---

bytes
Program::address(const bytes &a, uint16_t port, sockaddr_storage &out) const
{
  out = sockaddr_storage();
  if (a.size() == 4) {
    sockaddr_in v4 = {};
    v4.sin_family = AF_INET;
    v4.sin_port = htons(port);
    memcpy(&v4.sin_addr, a.data(), 4);
    memcpy(&out, &v4, sizeof(v4));
    return bytes(reinterpret_cast<char *>(&v4), sizeof(v4));
  }
  sockaddr_in6 v6 = {};
  v6.sin6_family = AF_INET6;
  v6.sin6_port = htons(port);
  memcpy(&v6.sin6_addr, a.data(), 16);
  memcpy(&out, &v6, sizeof(v6));
  return bytes(reinterpret_cast<char *>(&v6), sizeof(v6));
}

Program::Socket *
Program::find(int fd, const char *call)
{
  auto it = sockets_.find(fd);
  if (it == sockets_.end()) {
    breach("bad-descriptor", "%s on descriptor %d, which is not open", call, fd);
    errno = EBADF;
    return nullptr;
  }
  return &it->second;
}

int
Program::socket(int family, int type, int protocol)
{
  if (socket_fault_ == 1) {
    SIM_COUNT("fault.socket");
    errno = fail_errno_;
    return -1;
  }
  if ((type & SOCK_DGRAM) != SOCK_DGRAM || (type & SOCK_NONBLOCK) == 0) {
    breach("socket-type", "not a non-blocking datagram socket");
  }
  (void) protocol;
  int fd = next_fd_++;
  sockets_[fd].family = family;
  ctx.ev("os.socket", static_cast<uint64_t>(family));
  return fd;
}

int
Program::connect(int fd, const sockaddr *addr, socklen_t size)
{
  Socket *s = find(fd, "connect");
  if (s == nullptr) {
    return -1;
  }
  sockaddr_storage want;
  bytes w = address(truth.peer, port_, want);
  if (addr->sa_family != s->family || size < w.size()) {
    errno = EAFNOSUPPORT;
    return -1;
  }
  bool same = false;
  if (addr->sa_family == AF_INET && truth.peer.size() == 4) {
    const auto *v4 = reinterpret_cast<const sockaddr_in *>(addr);
    same = memcmp(&v4->sin_addr, truth.peer.data(), 4) == 0 && ntohs(v4->sin_port) == port_;
  } else if (addr->sa_family == AF_INET6 && truth.peer.size() == 16) {
    const auto *v6 = reinterpret_cast<const sockaddr_in6 *>(addr);
    same = memcmp(&v6->sin6_addr, truth.peer.data(), 16) == 0 && ntohs(v6->sin6_port) == port_;
  }
  if (!same) {
    breach("wrong-peer", "the program does not connect to the address and port it was told");
  }
  if (socket_fault_ == 2) {
    SIM_COUNT("fault.connect");
    errno = fail_errno_;
    return -1;
  }
  s->connected = true;
  return 0;
}

int
Program::setsockopt(int fd)
{
  if (find(fd, "setsockopt") == nullptr) {
    return -1;
  }
  if (socket_fault_ == 3) {
    SIM_COUNT("fault.setsockopt");
    errno = fail_errno_;
    return -1;
  }
  return 0;
}

int
Program::getsockopt(int fd, int level, int option, void *value, socklen_t *size)
{
  Socket *s = find(fd, "getsockopt");
  if (s == nullptr) {
    return -1;
  }
  if (level == SOL_SOCKET && option == SO_ERROR && *size >= sizeof(int)) {
    memcpy(value, &s->error, sizeof(int));
    *size = sizeof(int);
    s->error = 0;
    return 0;
  }
  errno = ENOPROTOOPT;
  return -1;
}

int
Program::name(int fd, bool peer, sockaddr *addr, socklen_t *size)
{
  Socket *s = find(fd, peer ? "getpeername" : "getsockname");
  if (s == nullptr) {
    return -1;
  }
  if (!s->connected) {
    errno = ENOTCONN;
    return -1;
  }
  sockaddr_storage out;
  bytes b = address(peer ? truth.peer : truth.local, peer ? port_ : 40000, out);
  memcpy(addr, b.data(), std::min<size_t>(*size, b.size()));
  *size = static_cast<socklen_t>(b.size());
  return 0;
}

int
Program::available(int fd, int *size)
{
  Socket *s = find(fd, "ioctl");
  if (s == nullptr) {
    return -1;
  }
  *size = s->queue.empty() ? 0 : static_cast<int>(s->queue.front().size());
  return 0;
}

ssize_t
Program::send(int fd, const void *data, size_t size)
{
  Socket *s = find(fd, "send");
  if (s == nullptr) {
    return -1;
  }
  if (s->error != 0) {
    errno = s->error;
    s->error = 0;
    return -1;
  }
  sends_++;
  if (scenario_ == SEND_ERROR && sends_ == fail_call_) {
    SIM_COUNT("fault.send_error");
    errno = fail_errno_;
    return -1;
  }
  if (s->blocked || (now < fault_end_ && ctx.chance(blocks_))) {
    if (!s->blocked) {
      SIM_COUNT("fault.socket_blocked");
      s->blocked = true;
      writable_at_ = now + ctx.range(1, 500000) * US;
      ctx.mix_schedule(writable_at_);
    }
    errno = EAGAIN;
    return -1;
  }
  bytes d(static_cast<const char *>(data), size);
  ctx.ev("os.send", size);
  if (size == 0) {
    breach("empty-packet", "an empty datagram was sent");
  }
  if (scenario_ == REFUSED && !server_alive(now)) {
    icmp_at_ = std::min(icmp_at_, now + net_.delay);
    return static_cast<ssize_t>(size);
  }
  net_.send(ctx, false, d, now);
  return static_cast<ssize_t>(size);
}

ssize_t
Program::recv(int fd, void *data, size_t size)
{
  Socket *s = find(fd, "recv");
  if (s == nullptr) {
    return -1;
  }
  if (s->error != 0) {
    errno = s->error;
    s->error = 0;
    return -1;
  }
  recvs_++;
  if (scenario_ == RECV_ERROR && recvs_ == fail_call_) {
    SIM_COUNT("fault.recv_error");
    errno = fail_errno_;
    return -1;
  }
  if (s->queue.empty() && now < fault_end_ && ctx.chance(races_) && net_.next() != NEVER &&
      net_.flight.begin()->second.to_client) {
    // It arrives now, after the program asked for its size.
    SIM_COUNT("fault.recv_race");
    s->queue.push_back(net_.flight.begin()->second.data);
    net_.flight.erase(net_.flight.begin());
    edge(fd);
  }
  if (s->queue.empty()) {
    errno = EAGAIN;
    return -1;
  }
  bytes d = std::move(s->queue.front());
  s->queue.pop_front();
  size_t n = std::min(size, d.size());
  if (n > 0) {
    memcpy(data, d.data(), n);
  }
  ctx.ev("os.recv", d.size(), n);
  return static_cast<ssize_t>(n);
}

int
Program::close(int fd)
{
  if (find(fd, "close") == nullptr) {
    return -1;
  }
  sockets_.erase(fd);
  return 0;
}

int
Program::resolve(const char *node, const addrinfo *hints, addrinfo **out)
{
  if (node == nullptr || truth.host != node) {
    breach("wrong-host", "the program resolves another name than it was given");
  }
  if (dns_error_ != 0) {
    SIM_COUNT("fault.dns");
    errno = dns_error_ == EAI_SYSTEM ? fail_errno_ : 0;
    return dns_error_;
  }
  unsigned repeat = hints != nullptr && hints->ai_socktype != 0 ? 1 : 3;
  addrinfo **tail = out;
  *out = nullptr;
  for (const bytes &a : addresses_) {
    for (unsigned i = 0; i < repeat; i++) {
      auto *storage = new sockaddr_storage;
      bytes b = address(a, 0, *storage);
      auto *info = new addrinfo();
      info->ai_family = storage->ss_family;
      info->ai_socktype = static_cast<int>(i + 1);
      info->ai_addr = reinterpret_cast<sockaddr *>(storage);
      info->ai_addrlen = static_cast<socklen_t>(b.size());
      *tail = info;
      tail = &info->ai_next;
    }
  }
  results_.insert(*out);
  return 0;
}

void
Program::free_results(addrinfo *results)
{
  if (results_.erase(results) == 0) {
    breach("bad-free", "freeaddrinfo() of something getaddrinfo() did not return");
    return;
  }
  while (results != nullptr) {
    addrinfo *next = results->ai_next;
    delete reinterpret_cast<sockaddr_storage *>(results->ai_addr);
    delete results;
    results = next;
  }
}

// ------------------------------------------------------------ the world ----

// Something about the descriptor changed.
void
Program::edge(int fd)
{
  if (event == nullptr) {
    return;
  }
  for (sd_event_source *s : event->sources) {
    if (s->kind == sd_event_source::IO && s->fd == fd) {
      s->edge = true;
    }
  }
}

void
Program::icmp()
{
  for (auto &e : sockets_) {
    SIM_COUNT("fault.refused");
    ctx.ev("os.refused");
    e.second.error = ECONNREFUSED;
    edge(e.first);
  }
}

void
Program::server_send()
{
  bytes packet;
  for (unsigned n = 0; n < 100000 && server_->next(packet, now); n++) {
    net_.send(ctx, true, packet, now);
  }
  if (server_->error != 0) {
    breach("server-rejects",
           "the program's packets broke the transport at the server: %d (%s)",
           server_->error,
           server_->error_why.c_str());
  }
}

void
Program::server_app()
{
  Server &s = *server_;
  bool more = !s.completed;
  if (s.completed) {
    if (steps_left_ > 0) {
      steps_left_--;
    }
    bool all = steps_left_ == 0;
    for (auto &e : s.out) {
      Server::Out &o = e.second;
      if (o.dead) {
        continue;
      }
      if (!all && !slow_ && ctx.chance(300)) {
        more = true;
        continue;
      }
      size_t left = o.content.size() - o.available;
      if (left > 0) {
        o.available += all || ctx.chance(300) ? left : ctx.range(1, left);
      }
      if (o.available == o.content.size() && (all || left == 0 || ctx.chance(500))) {
        o.fin_now = o.fin;
      }
      more = more || o.available < o.content.size() || (o.fin && !o.fin_now);
    }
    s.extend_windows(true);
  }
  if (!server_->completed) {
    next_app_ = now + ctx.range(20, 500) * MS;
  } else if (more) {
    next_app_ = now + (slow_ ? ctx.range(1, 20) * 1000 * MS : ctx.range(1, 200) * MS);
  } else {
    next_app_ = NEVER;
  }
  server_send();
}

uint64_t
Program::next_world() const
{
  uint64_t t = std::min({ net_.next(), act_at_, next_app_, writable_at_, icmp_at_ });
  if (net_.faulty) {
    t = std::min(t, fault_end_);
  }
  if (server_alive(now)) {
    t = std::min(t, server_->expiry());
  }
  return t;
}

// Everything outside the program, up to a moment.
void
Program::happen(uint64_t until)
{
  for (unsigned n = 0; n < 100000; n++) {
    uint64_t end = now;
    uint64_t t = next_world();
    if (t > until) {
      break;
    }
    // The server's clock is the moment itself.
    now = std::max<uint64_t>(t, 1);
    if (net_.faulty && now >= fault_end_) {
      net_.faulty = false;
      net_.cut_from = net_.cut_to = NEVER;
      server_->lazy_window = 0;
    }
    if (t == net_.next()) {
      Network::Datagram d = net_.flight.begin()->second;
      net_.flight.erase(net_.flight.begin());
      if (d.to_client) {
        for (auto &e : sockets_) {
          if (!e.second.connected) {
            continue;
          }
          if (e.second.queue.size() >= 400) {
            SIM_COUNT("fault.receive_buffer_full");
            continue;
          }
          e.second.queue.push_back(d.data);
          if (now < fault_end_ && ctx.chance(empty_)) {
            SIM_COUNT("fault.empty_datagram");
            e.second.queue.emplace_back();
          }
          edge(e.first);
        }
      } else if (server_alive(now)) {
        server_->datagram(d.data, now);
        server_send();
      }
    } else if (t == act_at_) {
      act_at_ = NEVER;
      switch (scenario_) {
        case REFUSED:
          dead_from_ = now;
          icmp();
          break;
        case RESET:
          if (server_->streams.count(0) != 0 && server_->reset(0, 0x102) == 0) {
            SIM_COUNT("fault.server_reset");
            ctx.ev("server.reset");
            server_->out[0].dead = true;
            server_send();
          } else if (!server_->out[0].dead) {
            act_at_ = now + 50 * MS;
          }
          break;
        case CLOSED:
          if (server_->completed) {
            SIM_COUNT("fault.connection_close");
            ctx.ev("server.close");
            server_->close(0x102, ctx.chance(500) ? bytes("go {} away {") : bytes("bye"));
            server_send();
          } else {
            act_at_ = now + 50 * MS;
          }
          break;
        case SIGNALLED:
          SIM_COUNT("fault.signal");
          signalled_ = true;
          break;
        default:
          break;
      }
    } else if (t == next_app_) {
      if (server_alive(now)) {
        server_app();
      } else {
        next_app_ = NEVER;
      }
    } else if (t == writable_at_) {
      writable_at_ = NEVER;
      for (auto &e : sockets_) {
        e.second.blocked = false;
        edge(e.first);
      }
    } else if (t == icmp_at_) {
      icmp_at_ = NEVER;
      icmp();
    } else if (server_alive(now) && t == server_->expiry()) {
      server_->timer(now);
      server_send();
    }
    now = std::max(end, now);
    if (broken.set) {
      return;
    }
  }
  now = std::max(now, until);
}

uint64_t
Program::next_timer(const sd_event *e) const
{
  uint64_t t = NEVER;
  for (const sd_event_source *s : e->sources) {
    if (s->kind == sd_event_source::TIME && s->enabled != SD_EVENT_OFF && s->time < NEVER / US) {
      t = std::min(t, s->time * US);
    }
  }
  return t;
}

// Whether the transport below the program has the whole response.
void
Program::track()
{
  if (complete_ || client == nullptr) {
    return;
  }
  complete_ = client->whole.count(0) != 0;
}

int
Program::loop(sd_event *e)
{
  while (!e->exit) {
    if (broken.set) {
      throw Stop();
    }
    ctx.steps++;
    ctx.sim_us = now / US;
    if (++rounds_ > 400000) {
      breach("no-progress", "the program goes on without getting anywhere");
      continue;
    }
    happen(now);
    if (broken.set) {
      continue;
    }
    loop_now_ = now;
    entered = now;
    std::vector<sd_event_source *> pending;
    if (signalled_) {
      ctx.ev("loop.signal");
      for (sd_event_source *s : e->sources) {
        if (s->kind == sd_event_source::SIGNAL) {
          if (s->on_signal == nullptr) {
            sd_event_exit(e, static_cast<int>(reinterpret_cast<intptr_t>(s->userdata)));
          } else {
            signalfd_siginfo info = {};
            info.ssi_signo = static_cast<uint32_t>(s->fd);
            Inside inside;
            s->on_signal(s, &info, s->userdata);
          }
          break;
        }
      }
      signalled_ = false;
      continue;
    }
    for (sd_event_source *s : e->sources) {
      if (s->enabled == SD_EVENT_OFF) {
        continue;
      }
      if (s->kind == sd_event_source::IO && s->edge) {
        pending.push_back(s);
      }
      if (s->kind == sd_event_source::TIME && s->time <= now / US) {
        pending.push_back(s);
      }
    }
    if (pending.empty()) {
      uint64_t t = std::min(next_world(), next_timer(e));
      if (t == NEVER) {
        breach("stuck", "the program waits for something that cannot happen");
        continue;
      }
      if (t > deadline_) {
        breach("never-ends",
               "the program has not ended %llu s after the last thing happened to it",
               static_cast<unsigned long long>((deadline_ - fault_end_) / (1000 * MS)));
        continue;
      }
      now = std::max(now, t);
      if (now < fault_end_ && ctx.chance(stall_)) {
        SIM_COUNT("fault.client_stall");
        happen(now + ctx.range(1, 2000) * MS);
        ctx.mix_schedule(now);
      } else if (ctx.chance(300)) {
        happen(now + ctx.pick(1000) * US);
      }
      if (now < fault_end_ && ctx.chance(spurious_)) {
        SIM_COUNT("fault.spurious_wakeup");
        for (auto &s : sockets_) {
          edge(s.first);
        }
      }
      continue;
    }
    sd_event_source *s = pending[ctx.pick(pending.size())];
    int rv = 0;
    s->refs++;
    in_loop_ = true;
    if (s->kind == sd_event_source::IO) {
      s->edge = false;
      uint32_t revents = 0;
      auto it = sockets_.find(s->fd);
      if (it == sockets_.end()) {
        breach("bad-descriptor", "the event loop watches a descriptor that is closed");
        continue;
      }
      const Socket &o = it->second;
      revents |= !o.queue.empty() ? static_cast<uint32_t>(EPOLLIN) : 0U;
      revents |= !o.blocked ? static_cast<uint32_t>(EPOLLOUT) : 0U;
      revents &= s->events;
      revents |= o.error != 0 ? static_cast<uint32_t>(EPOLLERR) : 0U;
      if (revents != 0) {
        ctx.ev("loop.io", revents);
        Inside inside;
        rv = s->on_io(s, s->fd, revents, s->userdata);
      }
    } else {
      if (s->enabled == SD_EVENT_ONESHOT) {
        s->enabled = SD_EVENT_OFF;
      }
      ctx.ev("loop.timer", s->time);
      SIM_COUNT("probe.program_timer");
      Inside inside;
      rv = s->on_time(s, s->time, s->userdata);
    }
    in_loop_ = false;
    if (rv < 0) {
      SIM_COUNT("probe.handler_failed");
      s->enabled = SD_EVENT_OFF;
    }
    sd_event_source_unref(s);
    now += US; // nothing takes no time
    track();
    ctx.mix(now);
  }
  return e->code;
}

// -------------------------------------------------------------- the run ----

void
Program::response()
{
  bytes r;
  auto unknown = [&]() {
    if (ctx.chance(150)) {
      SIM_COUNT("fault.unknown_frame");
      r += ref::frame(0x21 + 0x1f * ctx.pick(1000), sim::random_bytes(ctx, ctx.pick(200), 4));
    }
  };
  auto section = [&](const std::vector<ref::Header> &headers) {
    bytes block("\0\0", 2);
    for (const auto &h : headers) {
      block += ref::field(h, sim::random_field_options(ctx));
    }
    return block;
  };
  std::vector<ref::Header> headers = sim::random_headers(ctx, 6, static_cast<int>(ctx.pick(2)));
  headers.insert(headers.begin(), { ":status", "200" });
  unsigned broken_kind = scenario_ == BAD_RESPONSE ? static_cast<unsigned>(ctx.range(1, 5)) : 0;
  unknown();
  if (broken_kind == 1) {
    r += ref::frame(ref::DATA, "early");
  }
  if (broken_kind == 2) {
    bytes block = section(headers) + bytes("\xff\xff\xff\x7f", 4); // no such entry
    r += ref::frame(ref::HEADERS, block);
  } else {
    r += ref::frame(ref::HEADERS, section(headers));
  }
  size_t total = 0;
  switch (ctx.pick(8)) {
    case 0:
      break;
    case 1:
      total = ctx.range(1, 300000);
      break;
    case 2:
      total = ctx.chance(150) ? ctx.range(1, 1400000) : ctx.range(1, 20000);
      break;
    default:
      total = ctx.range(1, 6000);
      break;
  }
  uint64_t key = ctx.pick(1U << 16U);
  size_t done = 0;
  while (done < total || ctx.chance(200)) {
    size_t n = std::min<size_t>(total - done, ctx.chance(300) ? ctx.range(0, 100) : ctx.range(1, 1 + total));
    r += ref::frame(ref::DATA, sim::body_bytes(key, done, n), ctx.chance(100) ? 4 : 0, ctx.chance(100) ? 8 : 0);
    done += n;
    unknown();
  }
  if (broken_kind == 3) {
    r += ref::frame(ref::SETTINGS, "");
  }
  if (broken_kind == 4) {
    r += ref::frame_header(ref::DATA, 10) + bytes("only");
  }
  if (broken_kind == 5) {
    r.resize(ctx.pick(r.size()));
  }
  Server::Out o;
  o.content = r;
  o.fin = scenario_ != UNFINISHED;
  server_->out[0] = o;

  ref::Receiver model(false);
  model.feed(r);
  model.fin();
  valid_ = o.fin && model.finished && model.state == ref::verdict::fine && !model.unspecified;
  for (const auto &h : model.headers) {
    expected_ += h.name + ": " + h.value + "\n";
  }
  expected_ += "\n" + model.body;

  // The control stream, and perhaps some of which nobody knows the use.
  bytes settings;
  if (ctx.chance(500)) {
    settings += ref::varint(0x6) + ref::varint(ctx.pick(100000));
  }
  if (ctx.chance(300)) {
    settings += ref::varint(0x21 + 0x1f * ctx.pick(100)) + ref::varint(ctx.pick(100));
  }
  bytes control = ref::varint(0) + ref::frame(ref::SETTINGS, settings);
  if (ctx.chance(200)) {
    control += ref::frame(0x21 + 0x1f * ctx.pick(1000), sim::random_bytes(ctx, ctx.pick(100), 4));
  }
  Server::Out c;
  c.content = control;
  c.fin = false;
  int64_t at = 3;
  size_t others = ctx.chance(200) ? ctx.range(1, 2) : 0;
  const size_t position = 0; // the library takes its peer's first such stream for it
  for (size_t i = 0; i <= others; i++, at += 4) {
    if (i == position) {
      if (scenario_ == BAD_CONTROL) {
        SIM_COUNT("fault.bad_control");
        c.content = ref::varint(0) + (ctx.chance(500) ? ref::frame(ref::DATA, "x") : ref::frame(ref::SETTINGS, "\x06"));
      }
      server_->out[at] = c;
    } else {
      SIM_COUNT("fault.unknown_uni_stream");
      Server::Out u;
      u.content = ref::varint(0x21 + 0x1f * ctx.pick(100)) + sim::random_bytes(ctx, ctx.pick(300), 4);
      u.fin = ctx.chance(500);
      server_->out[at] = u;
    }
  }
}

void
Program::setup()
{
  reset_stack(ctx);
  os = this;
  now = ctx.range(1, 1000000) * 1000 * US;
  if (ctx.chance(100)) {
    now = ctx.range(1, 100) * US; // just booted
  }
  bool calm = ctx.chance(150);
  auto knob = [&](unsigned permille, unsigned often = 500) -> unsigned {
    return !calm && ctx.chance(often) ? static_cast<unsigned>(ctx.range(1, permille)) : 0;
  };
  scenario_ = ctx.chance(600) ? GOOD : static_cast<scenario>(ctx.pick(SCENARIOS));

  truth.host = ctx.chance(300) ? bytes("h{}") : bytes("server.example.org");
  if (ctx.chance(150)) {
    truth.host = "s" + bytes(ctx.range(1, 250), 'x') + ".example";
  }
  size_t n = ctx.range(1, 3);
  for (size_t i = 0; i < n; i++) {
    addresses_.push_back(sim::random_bytes(ctx, ctx.chance(400) ? 16 : 4, 4));
  }
  truth.peer = addresses_[0];
  truth.local = sim::random_bytes(ctx, truth.peer.size(), 4);
  port_ = static_cast<uint16_t>(ctx.chance(500) ? 443 : ctx.range(1, 65535));
  args_ = { "client", truth.host, std::to_string(port_) };

  Params p;
  p.stream_bidi_local = 256 * 1024;
  p.stream_bidi_remote = 256 * 1024;
  p.stream_uni = 256 * 1024;
  p.data = 1024 * 1024;
  p.streams_bidi = 1;
  p.streams_uni = 3;
  p.idle_timeout = 30000;
  truth.params = p;

  auto pick = [&](std::initializer_list<uint64_t> v) { return v.begin()[ctx.pick(v.size())]; };
  Params s;
  s.stream_bidi_local = pick({ 1000, 65536, 1ULL << 40U });
  s.stream_bidi_remote = pick({ 30, 200, 65536, 1ULL << 40U });
  s.stream_uni = pick({ 10, 1000, 65536 });
  s.data = pick({ 100, 2000, 65536, 1ULL << 40U });
  s.streams_bidi = pick({ 1, 2, 100 });
  s.streams_uni = pick({ 1, 3, 100 });
  s.idle_timeout = pick({ 0, 30000, 60000, 600000 });
  s.max_ack_delay = pick({ 25, 5, 200 });
  truth.server_params = encode_params(s);

  net_.delay = pick({ 1, 5, 20, 60 }) * MS;
  net_.jitter = ctx.chance(500) ? net_.delay / 2 : 0;
  net_.faults.loss = knob(300);
  net_.faults.duplicate = knob(200, 400);
  net_.faults.reorder = knob(200, 400);
  net_.faults.corrupt = knob(60, 300);
  net_.faults.truncate = knob(60, 300);
  net_.faults.garbage = knob(100, 300);

  uint64_t rtt = 2 * (net_.delay + net_.jitter);
  auto config = [&]() {
    Config c;
    c.pto = rtt + rtt / 2 + ctx.range(5000000, 60000000);
    c.cwnd = pick({ 1U << 20U, 3000, 12000, 60000 });
    c.short_write = knob(300, 300);
    return c;
  };
  truth.cfg = config();
  TlsFault fault = TlsFault::none;
  if (scenario_ == BAD_TLS) {
    fault = static_cast<TlsFault>(ctx.range(1, 7));
    SIM_COUNT("fault.tls");
    truth.no_hello = fault == TlsFault::client;
  }
  server_.reset(new Server(ctx, static_cast<unsigned>(ctx.pick(3)), fault));
  server_->cfg = config();
  server_->local = s;
  server_->params = truth.server_params;
  server_->certificate = pick({ 800, 10, 3000, 9000 });
  server_->tickets = ctx.chance(300);
  server_->lazy_window = knob(700, 300);

  fault_end_ = now + ctx.range(1, 100) * 40 * MS;
  if (!calm && ctx.chance(250)) {
    net_.cut_from = now + ctx.pick((fault_end_ - now) / MS) * MS;
    net_.cut_to = net_.cut_from + ctx.range(10, 3000) * MS;
    fault_end_ = std::max(fault_end_, net_.cut_to);
    SIM_COUNT("fault.partition");
  }
  blocks_ = knob(300, 300);
  races_ = knob(300, 300);
  stall_ = knob(60, 300);
  spurious_ = knob(200, 300);
  empty_ = knob(100, 150);
  slow_ = ctx.chance(150);
  steps_left_ = static_cast<unsigned>(ctx.range(1, 12));
  next_app_ = now + ctx.pick(300) * MS;
  deadline_ = fault_end_ + 1800ULL * 1000 * MS;

  uint64_t sometime = now + ctx.pick((fault_end_ - now) / MS + 300) * MS;
  switch (scenario_) {
    case ARGUMENTS: {
      static const char *bad[] = { "", "abc", "99999999999999999999999", "65536", "70000", "-1", "x443" };
      size_t which = ctx.pick(12);
      if (which >= 10) {
        args_.resize(which - 9);
      } else if (which >= 7) {
        // Numbers that become the right port when they are cut to some width.
        unsigned __int128 port = std::stoul(args_[2]);
        port += static_cast<unsigned __int128>(ctx.range(1, 3)) << (which == 7 ? 16U : which == 8 ? 32U : 64U);
        std::string text;
        for (; port != 0; port /= 10) {
          text.insert(text.begin(), static_cast<char>('0' + static_cast<int>(port % 10)));
        }
        args_[2] = text;
      } else {
        args_[2] = bad[which];
      }
      SIM_COUNT("fault.arguments");
      break;
    }
    case NO_HOST:
      dns_error_ = static_cast<int>(std::initializer_list<int>{ EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM }.begin()[ctx.pick(5)]);
      fail_errno_ = EMFILE;
      break;
    case NO_SOCKET:
      socket_fault_ = static_cast<unsigned>(ctx.range(1, 2));
      fail_errno_ = static_cast<int>(socket_fault_ == 1 ? pick({ EMFILE, ENFILE, EAFNOSUPPORT, ENOBUFS, EACCES })
                                                        : pick({ ENETUNREACH, EACCES, EADDRNOTAVAIL, EHOSTUNREACH }));
      break;
    case SILENT:
      SIM_COUNT("fault.server_silent");
      dead_from_ = ctx.chance(400) ? 0 : sometime;
      break;
    case REFUSED:
      act_at_ = ctx.chance(400) ? now + 2 * net_.delay : sometime;
      break;
    case RESET:
    case CLOSED:
    case SIGNALLED:
      act_at_ = sometime;
      break;
    case SEND_ERROR:
      fail_call_ = static_cast<unsigned>(ctx.range(1, 20));
      fail_errno_ = static_cast<int>(pick({ ENETUNREACH, EPERM, EMSGSIZE, ENOBUFS, EHOSTUNREACH }));
      break;
    case RECV_ERROR:
      fail_call_ = static_cast<unsigned>(ctx.range(1, 20));
      fail_errno_ = static_cast<int>(pick({ ENOMEM, EHOSTUNREACH, ENETDOWN }));
      break;
    default:
      break;
  }
  response();
  if (scenario_ == OUTPUT_FULL) {
    SIM_COUNT("fault.output_full");
    out_.limit = ctx.chance(500) ? ctx.pick(expected_.size()) : expected_.size() - 1;
  }
  must_succeed_ = scenario_ == GOOD;
  if (must_succeed_ && !valid_) {
    breach("harness", "the scripted response is not valid");
  }
  entered = now;
}

void
Program::check_request()
{
  auto it = server_->in.find(0);
  if (it != server_->in.end() && !it->second.content.empty()) {
    ref::Receiver r(true);
    r.feed(it->second.content);
    if (it->second.fin) {
      r.fin();
    }
    std::vector<ref::Header> want = { { ":method", "GET" },
                                      { ":scheme", "https" },
                                      { ":authority", truth.host },
                                      { ":path", "/index.html" } };
    SIM_CHECK(r.state == ref::verdict::fine && r.body.empty() && (!it->second.fin || (r.finished && r.headers == want)),
              "wrong-request",
              "the server did not get the request");
  }
  for (auto &e : server_->in) {
    if (e.first == 0 || e.second.content.empty()) {
      continue;
    }
    ref::Control c(true);
    c.feed(e.second.content);
    SIM_CHECK(c.state == ref::verdict::fine && !e.second.fin, "wrong-control", "the program's control stream is not one");
  }
}

void
Program::run()
{
  setup();
  ctx.nontrivial = true;
  uint64_t live = sim::alloc.live_bytes;
  auto *logger = bnl::base::logger;
  std::streambuf *previous = std::cout.rdbuf(&out_);
  LogFile log_out(ctx, stdout, ctx.pick(2) == 0 ? 4096 : 1024);
  LogFile log_err(ctx, stderr, 0);
  if (scenario_ == OUTPUT_FULL && ctx.chance(700)) {
    log_out.limit = ctx.pick(3000);
  }
  if (ctx.chance(100)) {
    log_err.limit = ctx.pick(300);
  }
  std::vector<char *> argv;
  for (bytes &a : args_) {
    argv.push_back(&a[0]);
  }
  argv.push_back(nullptr);
  int code = -1;
  bool stopped = false;
  bool threw = false;
  {
    sim::LibScope lib;
    try {
      code = endpoint_main(static_cast<int>(args_.size()), argv.data());
    } catch (const Stop &) {
      stopped = true;
    } catch (const std::exception &) {
      threw = true;
    }
  }
  in_loop_ = false;
  std::cout.rdbuf(previous);
  std::cout.clear();
  bnl::base::logger = logger;
  ctx.ev("program.exit", static_cast<uint64_t>(code), stopped ? 1 : 0, threw ? 1 : 0);
  ctx.mix_bytes(out_.text.data(), out_.text.size());
  checkpoint();
  SIM_CHECK(!threw, "uncaught", "the program ended in an uncaught exception");
  check_request();
  if (scenario_ == SIGNALLED && code == 0) {
    // Told to stop, it prints what it has.
  } else if (code == 0) {
    SIM_COUNT("probe.program_success");
    SIM_CHECK(scenario_ != ARGUMENTS,
              "false-success",
              "the program reported success though its arguments are no use");
    SIM_CHECK(valid_ && complete_,
              "false-success",
              "the program reported success without having got the whole response");
    SIM_CHECK(out_.text == expected_,
              "wrong-output",
              "the program printed %zu bytes that are not the response (%zu bytes)",
              out_.text.size(),
              expected_.size());
  } else {
    SIM_COUNT("probe.program_failure");
    SIM_CHECK(!must_succeed_, "false-failure", "the program failed although nothing stood in its way (status %d)", code);
  }
  SIM_CHECK(sockets_.empty(), "descriptor-leak", "%zu descriptors are left open", sockets_.size());
  SIM_CHECK(results_.empty(), "leak", "the results of name resolution were not given back");
  SIM_CHECK(event == nullptr, "leak", "the event loop was not given back");
  SIM_CHECK(sim::alloc.live_bytes <= live + 16384,
            "leak",
            "%llu bytes were not given back",
            static_cast<unsigned long long>(sim::alloc.live_bytes - live));
}

}

void
program_world(Ctx &ctx)
{
  Program p(ctx);
  p.run();
}

}

// ---------------------------------------------- the time, as the logger asks --

extern "C" {

time_t
sim_time(time_t *t)
{
  time_t seconds = static_cast<time_t>(1600000000 + (qsim::os != nullptr ? qsim::os->event_now() / 1000000 : 0));
  if (t != nullptr) {
    *t = seconds;
  }
  return seconds;
}

int
sim_gettimeofday(timeval *t, void *)
{
  t->tv_sec = sim_time(nullptr);
  t->tv_usec = 0;
  return 0;
}

int
sim_clock_gettime(clockid_t, timespec *t)
{
  t->tv_sec = sim_time(nullptr);
  t->tv_nsec = 0;
  return 0;
}

int64_t
sim_system_clock_now()
{
  return static_cast<int64_t>(sim_time(nullptr)) * 1000000000;
}
}

// ---------------------------------------------------------------- sd-event --

using qsim::os;
using qsim::Outside;

extern "C" {

int
sd_event_default(sd_event **e)
{
  Outside outside;
  if (os->event == nullptr) {
    os->event = new sd_event;
  }
  os->event->refs++;
  *e = os->event;
  return 0;
}

int
sd_event_new(sd_event **e)
{
  return sd_event_default(e);
}

sd_event *
sd_event_ref(sd_event *e)
{
  e->refs++;
  return e;
}

sd_event *
sd_event_unref(sd_event *e)
{
  Outside outside;
  if (e != nullptr && --e->refs == 0) {
    for (sd_event_source *s : e->sources) {
      s->event = nullptr;
      if (s->floating) {
        delete s;
      }
    }
    e->sources.clear();
    os->event = nullptr;
    delete e;
  }
  return nullptr;
}

int
sd_event_now(sd_event *e, clockid_t clock, uint64_t *usec)
{
  (void) e;
  if (clock != CLOCK_MONOTONIC && clock != CLOCK_BOOTTIME) {
    qsim::breach("wrong-clock", "not the monotonic clock");
  }
  *usec = os->event_now();
  return 0;
}

static sd_event_source *
add(sd_event *e, sd_event_source **out, void *userdata)
{
  auto *s = new sd_event_source;
  s->event = e;
  s->userdata = userdata;
  e->sources.push_back(s);
  if (out == nullptr) {
    s->floating = true;
  } else {
    *out = s;
    e->refs++;
  }
  return s;
}

int
sd_event_add_io(sd_event *e,
                sd_event_source **s,
                int fd,
                uint32_t events,
                sd_event_io_handler_t callback,
                void *userdata)
{
  Outside outside;
  sd_event_source *n = add(e, s, userdata);
  n->fd = fd;
  n->events = events;
  n->on_io = callback;
  n->edge = true;
  return 0;
}

int
sd_event_add_time(sd_event *e,
                  sd_event_source **s,
                  clockid_t clock,
                  uint64_t usec,
                  uint64_t accuracy,
                  sd_event_time_handler_t callback,
                  void *userdata)
{
  Outside outside;
  (void) accuracy;
  if (clock != CLOCK_MONOTONIC && clock != CLOCK_BOOTTIME) {
    qsim::breach("wrong-clock", "not the monotonic clock");
  }
  sd_event_source *n = add(e, s, userdata);
  n->kind = sd_event_source::TIME;
  n->enabled = SD_EVENT_ONESHOT;
  n->time = usec;
  n->on_time = callback;
  return 0;
}

int
sd_event_add_signal(sd_event *e, sd_event_source **s, int sig, sd_event_signal_handler_t callback, void *userdata)
{
  Outside outside;
  sd_event_source *n = add(e, s, userdata);
  n->fd = sig;
  n->on_signal = callback;
  n->kind = sd_event_source::SIGNAL;
  return 0;
}

int
sd_event_loop(sd_event *e)
{
  Outside outside;
  return os->loop(e);
}

int
sd_event_exit(sd_event *e, int code)
{
  e->exit = true;
  e->code = code;
  return 0;
}

int
sd_event_get_exit_code(sd_event *e, int *code)
{
  if (!e->exit) {
    return -ENODATA;
  }
  *code = e->code;
  return 0;
}

sd_event_source *
sd_event_source_ref(sd_event_source *s)
{
  s->refs++;
  return s;
}

sd_event_source *
sd_event_source_unref(sd_event_source *s)
{
  Outside outside;
  if (s != nullptr && --s->refs == 0) {
    if (s->event != nullptr) {
      s->event->sources.remove(s);
      sd_event_unref(s->event);
    }
    delete s;
  }
  return nullptr;
}

sd_event_source *
sd_event_source_disable_unref(sd_event_source *s)
{
  if (s != nullptr) {
    s->enabled = SD_EVENT_OFF;
  }
  return sd_event_source_unref(s);
}

sd_event *
sd_event_source_get_event(sd_event_source *s)
{
  return s->event;
}

void *
sd_event_source_get_userdata(sd_event_source *s)
{
  return s == nullptr ? nullptr : s->userdata;
}

void *
sd_event_source_set_userdata(sd_event_source *s, void *userdata)
{
  if (s == nullptr) {
    return nullptr;
  }
  void *old = s->userdata;
  s->userdata = userdata;
  return old;
}

int
sd_event_source_set_description(sd_event_source *, const char *)
{
  return 0;
}

int
sd_event_source_set_priority(sd_event_source *, int64_t)
{
  return 0;
}

int
sd_event_source_set_enabled(sd_event_source *s, int enabled)
{
  if (s == nullptr) {
    return -EINVAL;
  }
  s->enabled = enabled;
  return 0;
}

int
sd_event_source_get_enabled(sd_event_source *s, int *enabled)
{
  if (enabled != nullptr) {
    *enabled = s->enabled;
  }
  return s->enabled != SD_EVENT_OFF ? 1 : 0;
}

int
sd_event_source_set_time(sd_event_source *s, uint64_t usec)
{
  if (s == nullptr) {
    return -EINVAL;
  }
  s->time = usec;
  return 0;
}

int
sd_event_source_get_time(sd_event_source *s, uint64_t *usec)
{
  *usec = s->time;
  return 0;
}

int
sd_event_source_set_io_events(sd_event_source *s, uint32_t events)
{
  s->events = events;
  s->edge = true;
  return 0;
}

// ------------------------------------------- what the program calls instead --

int
ep_socket(int family, int type, int protocol)
{
  Outside outside;
  return os->socket(family, type, protocol);
}

int
ep_connect(int fd, const sockaddr *addr, socklen_t size)
{
  Outside outside;
  return os->connect(fd, addr, size);
}

int
ep_setsockopt(int fd, int, int, const void *, socklen_t)
{
  Outside outside;
  return os->setsockopt(fd);
}

int
ep_getsockopt(int fd, int level, int name, void *value, socklen_t *size)
{
  Outside outside;
  return os->getsockopt(fd, level, name, value, size);
}

int
ep_getsockname(int fd, sockaddr *addr, socklen_t *size)
{
  Outside outside;
  return os->name(fd, false, addr, size);
}

int
ep_getpeername(int fd, sockaddr *addr, socklen_t *size)
{
  Outside outside;
  return os->name(fd, true, addr, size);
}

int
ep_ioctl(int fd, unsigned long request, void *argument)
{
  Outside outside;
  if (request != FIONREAD) {
    errno = EINVAL;
    return -1;
  }
  return os->available(fd, static_cast<int *>(argument));
}

ssize_t
ep_send(int fd, const void *data, size_t size, int)
{
  Outside outside;
  return os->send(fd, data, size);
}

ssize_t
ep_write(int fd, const void *data, size_t size)
{
  Outside outside;
  return os->send(fd, data, size);
}

ssize_t
ep_recv(int fd, void *data, size_t size, int)
{
  Outside outside;
  return os->recv(fd, data, size);
}

ssize_t
ep_read(int fd, void *data, size_t size)
{
  Outside outside;
  return os->recv(fd, data, size);
}

int
ep_close(int fd)
{
  Outside outside;
  return os->close(fd);
}

int
ep_getaddrinfo(const char *node, const char *, const addrinfo *hints, addrinfo **out)
{
  Outside outside;
  return os->resolve(node, hints, out);
}

void
ep_freeaddrinfo(addrinfo *results)
{
  Outside outside;
  os->free_results(results);
}

int
ep_sigprocmask(int, const sigset_t *, sigset_t *)
{
  return 0;
}
}
