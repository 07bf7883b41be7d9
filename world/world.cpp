#include "world.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <memory>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include "../engine/sym.h"
#include "com/Request.hpp"
#include "com/SocketCommunication.hpp"
#include "com/SocketCommunicationFactory.hpp"
#include "utils/IntraComm.hpp"

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
} // namespace __cxxabiv1

namespace world {
namespace {
struct IntraState {
  precice::Rank                  rank = -1;
  int                            size = -1;
  bool                           prim = false, sec = false;
  precice::com::PtrCommunication comm;
};
struct Proc {
  std::string           name;
  std::function<void()> body;
  ucontext_t            ctx;
  char                 *stack = nullptr;
  bool                  done  = false;
  std::function<bool()> ready;
  const char           *why = "";
  IntraState            intra;
  char                  eh[16] = {0};
};
std::vector<std::unique_ptr<Proc>> *procs = nullptr;
int                                 cur   = -1;
int                                 schedChoices = 0;
ucontext_t                          mainCtx;
std::exception_ptr                  failure;
IntraState                          mainIntra;
char                                mainEh[16];
std::vector<std::string>           *warns = nullptr;

void swapIntra(IntraState &save, IntraState &load)
{
  using precice::utils::IntraComm;
  save.rank                        = IntraComm::_rank;
  save.size                        = IntraComm::_size;
  save.prim                        = IntraComm::_isPrimaryRank;
  save.sec                         = IntraComm::_isSecondaryRank;
  save.comm                        = IntraComm::_communication;
  IntraComm::_rank                 = load.rank;
  IntraComm::_size                 = load.size;
  IntraComm::_isPrimaryRank        = load.prim;
  IntraComm::_isSecondaryRank      = load.sec;
  IntraComm::_communication        = load.comm;
}
constexpr size_t STACK = 4u << 20;

void trampoline()
{
  Proc &p = *(*procs)[cur];
  try {
    p.body();
  } catch (...) {
    failure = std::current_exception();
  }
  p.done = true;
  int me = cur;
  cur    = -1;
  swapIntra((*procs)[me]->intra, mainIntra);
  memcpy((*procs)[me]->eh, __cxxabiv1::__cxa_get_globals(), 16);
  memcpy(__cxxabiv1::__cxa_get_globals(), mainEh, 16);
  setcontext(&mainCtx);
}

void toMain()
{
  int me = cur;
  cur    = -1;
  swapIntra((*procs)[me]->intra, mainIntra);
  memcpy((*procs)[me]->eh, __cxxabiv1::__cxa_get_globals(), 16);
  memcpy(__cxxabiv1::__cxa_get_globals(), mainEh, 16);
  swapcontext(&(*procs)[me]->ctx, &mainCtx);
}
void toProc(int i)
{
  cur = i;
  swapIntra(mainIntra, (*procs)[i]->intra);
  memcpy(mainEh, __cxxabiv1::__cxa_get_globals(), 16);
  memcpy(__cxxabiv1::__cxa_get_globals(), (*procs)[i]->eh, 16);
  swapcontext(&mainCtx, &(*procs)[i]->ctx);
}
} // namespace

int current() { return cur; }

void spawn(const std::string &name, std::function<void()> body)
{
  if (!procs)
    procs = new std::vector<std::unique_ptr<Proc>>;
  auto p   = std::make_unique<Proc>();
  p->name  = name;
  p->body  = std::move(body);
  p->stack = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  getcontext(&p->ctx);
  p->ctx.uc_stack.ss_sp   = p->stack;
  p->ctx.uc_stack.ss_size = STACK;
  p->ctx.uc_link          = nullptr;
  makecontext(&p->ctx, trampoline, 0);
  procs->push_back(std::move(p));
}

void exploreSchedules(int n) { schedChoices = n; }

static bool abandoned = false;
void        abandonOthers() { abandoned = true; }
void run()
{
  int last = -1;
  while (true) {
    if (abandoned && !failure)
      return;
    if (failure) {
      auto f  = failure;
      failure = nullptr;
      std::rethrow_exception(f);
    }
    std::vector<int> can;
    bool             all = true;
    int              n   = (int) procs->size();
    for (int k = 0; k < n; ++k) {
      int   i = (last + 1 + k) % n;
      Proc &p = *(*procs)[i];
      if (p.done)
        continue;
      all = false;
      if (!p.ready || p.ready())
        can.push_back(i);
    }
    if (all)
      break;
    if (can.empty()) {
      std::string s = "deadlock";
      for (auto &p : *procs)
        if (!p->done)
          s += std::string("; ") + p->name + " waits in " + p->why;
      sym::fail(s.c_str());
      return;
    }
    int pick = 0;
    if (schedChoices > 0 && can.size() > 1) {
      --schedChoices;
      pick = sym::choice("schedule", (int) can.size());
    }
    int i             = can[pick];
    (*procs)[i]->ready = nullptr;
    // round robin unless the schedule is explored: run the picked process until it blocks
    last = i;
    toProc(i);
  }
  procs->clear();
}

namespace {
bool go     = false;
int  nReady = 0;
} // namespace
void ready()
{
  ++nReady;
  waitFor([] { return go; }, "ready");
}
void prepare()
{
  // runs every process up to its call of ready(); concrete, before the exploration forks
  bool progress = true;
  while (progress && nReady < (int) procs->size()) {
    progress = false;
    for (int i = 0; i < (int) procs->size(); ++i) {
      Proc &p = *(*procs)[i];
      if (p.done || (p.ready && !p.ready()))
        continue;
      p.ready  = nullptr;
      progress = true;
      toProc(i);
      if (failure) {
        go = true;
        return; // reported by run()
      }
    }
  }
  go = true;
}

void waitFor(const std::function<bool()> &ready, const char *why)
{
  if (cur < 0) {
    if (!ready())
      sym::fail((std::string("blocked outside of a process: ") + why).c_str());
    return;
  }
  while (!ready()) {
    (*procs)[cur]->ready = ready;
    (*procs)[cur]->why   = why;
    toMain();
  }
}
void yield()
{
  (*procs)[cur]->ready = nullptr;
  toMain();
}

const std::vector<std::string> &warnings()
{
  if (!warns)
    warns = new std::vector<std::string>;
  return *warns;
}

void ranks(int n, std::function<void(int)> body)
{
  for (int r = 0; r < n; ++r)
    spawn("rank" + std::to_string(r), [=] {
      using precice::utils::IntraComm;
      IntraComm::configure(r, n);
      if (n > 1) {
        IntraComm::_communication = std::make_shared<precice::com::SocketCommunication>();
        IntraComm::_communication->connectIntraComm("P", "ic", r, n);
      }
      body(r);
    });
  run();
}

std::string writeConfig(const std::string &xml)
{
  int fd = memfd_create("cfg", 0);
  if (write(fd, xml.data(), xml.size()) != (ssize_t) xml.size())
    abort();
  return "/proc/self/fd/" + std::to_string(fd);
}

// ------------------------------------------------------------------ byte streams
static size_t lostBytes = 0;
struct Stream {
  ~Stream() { lostBytes += avail; }
  std::deque<std::vector<char>> chunks;
  size_t                        pos = 0, avail = 0;
  struct Pending {
    char *p;
    size_t n;
    bool   done = false;
  };
  std::deque<std::shared_ptr<Pending>> pending;
  bool                                 closed = false;

  void put(const void *p, size_t n)
  {
    if (!n)
      return;
    std::vector<char> v(n);
    memcpy(v.data(), p, n);
    chunks.push_back(std::move(v));
    avail += n;
  }
  void take(char *p, size_t n)
  {
    avail -= n;
    while (n) {
      auto  &c = chunks.front();
      size_t m = std::min(n, c.size() - pos);
      memcpy(p, c.data() + pos, m);
      p += m;
      n -= m;
      pos += m;
      if (pos == c.size()) {
        chunks.pop_front();
        pos = 0;
      }
    }
  }
  // fulfils posted receives in order
  void progress()
  {
    while (!pending.empty() && avail >= pending.front()->n) {
      auto q = pending.front();
      pending.pop_front();
      take(q->p, q->n);
      q->done = true;
    }
  }
  void get(void *p, size_t n)
  {
    auto q = std::make_shared<Pending>();
    q->p   = (char *) p;
    q->n   = n;
    pending.push_back(q);
    progress();
    if (!q->done)
      waitFor([this, q] { progress(); return q->done; }, "receive");
  }
};
namespace {
std::vector<std::weak_ptr<Stream>> *streams = nullptr;
std::shared_ptr<Stream>             newStream()
{
  auto s = std::make_shared<Stream>();
  if (!streams)
    streams = new std::vector<std::weak_ptr<Stream>>;
  streams->push_back(s);
  return s;
}
struct Pend {
  int      rank, size;
  Endpoint acceptorSide;
};
std::map<std::string, std::deque<Pend>> *board = nullptr;
std::map<std::string, std::deque<Pend>> &theBoard()
{
  if (!board)
    board = new std::map<std::string, std::deque<Pend>>;
  return *board;
}
} // namespace
size_t undelivered()
{
  size_t n = lostBytes;
  if (streams)
    for (auto &w : *streams)
      if (auto s = w.lock())
        n += s->avail;
  return n;
}
} // namespace world

namespace precice::com {
using world::Endpoint;

class MemRequest : public Request {
public:
  // completed send: remember what was handed over, the buffer has to stay intact until wait()
  const char            *buf = nullptr;
  std::vector<char>      snap;
  std::shared_ptr<world::Stream::Pending> pend;
  std::shared_ptr<world::Stream>          stream;
  bool test() override
  {
    if (pend) {
      stream->progress();
      return pend->done;
    }
    return true;
  }
  void wait() override
  {
    if (pend && !pend->done)
      world::waitFor([this] { stream->progress(); return pend->done; }, "receive");
  }
};

SocketCommunication::SocketCommunication(unsigned short, bool, std::string, std::string) {}
SocketCommunication::SocketCommunication(std::string const &) {}
SocketCommunication::~SocketCommunication() { closeConnection(); }
size_t SocketCommunication::getRemoteCommunicatorSize() { return _peers.size(); }

static std::string key(std::string const &a, std::string const &r, std::string const &tag, int rank = -1) { return a + "|" + r + "|" + tag + "|" + std::to_string(rank); }

static void request(std::string const &k, int rank, int size, Endpoint &mine)
{
  mine.in  = world::newStream();
  mine.out = world::newStream();
  world::theBoard()[k].push_back({rank, size, Endpoint{mine.out, mine.in}});
}

void SocketCommunication::acceptConnection(std::string const &a, std::string const &r, std::string const &tag, int, int rankOffset)
{
  setRankOffset(rankOffset);
  auto  k = key(a, r, tag);
  auto &q = world::theBoard()[k];
  int   count = -1, have = 0;
  do {
    world::waitFor([&q] { return !q.empty(); }, "accept");
    auto p = q.front();
    q.pop_front();
    if (_peers.count(p.rank))
      sym::fail("duplicate connection request of one rank");
    _peers[p.rank] = p.acceptorSide;
    if (count < 0)
      count = p.size;
    if (count != p.size)
      sym::fail("ranks disagree on the size of the remote communicator");
  } while (++have < count);
  _isConnected = true;
}
void SocketCommunication::acceptConnectionAsServer(std::string const &a, std::string const &r, std::string const &tag, int acceptorRank, int requesterCommunicatorSize)
{
  auto  k = key(a, r, tag, acceptorRank);
  auto &q = world::theBoard()[k];
  for (int i = 0; i < requesterCommunicatorSize; ++i) {
    world::waitFor([&q] { return !q.empty(); }, "acceptAsServer");
    auto p = q.front();
    q.pop_front();
    _peers[p.rank] = p.acceptorSide;
  }
  _isConnected = true;
}
void SocketCommunication::requestConnection(std::string const &a, std::string const &r, std::string const &tag, int requesterRank, int requesterCommunicatorSize)
{
  request(key(a, r, tag), requesterRank, requesterCommunicatorSize, _peers[0]);
  _isConnected = true;
}
void SocketCommunication::requestConnectionAsClient(std::string const &a, std::string const &r, std::string const &tag, std::set<int> const &acceptorRanks, int requesterRank)
{
  for (int ar : acceptorRanks) {
    request(key(a, r, tag, ar), requesterRank, -1, _peers[ar]);
    _isConnected = true;
  }
}
void SocketCommunication::closeConnection()
{
  _peers.clear();
  _isConnected = false;
}
Endpoint &SocketCommunication::peer(Rank r)
{
  auto it = _peers.find(adjustRank(r));
  if (!_isConnected || it == _peers.end())
    sym::fail("communication with a rank that is not connected");
  return it->second;
}
void       SocketCommunication::put(const void *p, size_t n, Rank r) { peer(r).out->put(p, n); }
void       SocketCommunication::get(void *p, size_t n, Rank r) { auto s = peer(r).in; s->get(p, n); }
PtrRequest SocketCommunication::aput(const void *p, size_t n, Rank r)
{
  peer(r).out->put(p, n);
  return std::make_shared<MemRequest>();
}
PtrRequest SocketCommunication::aget(void *p, size_t n, Rank r)
{
  auto q    = std::make_shared<MemRequest>();
  q->stream = peer(r).in;
  q->pend   = std::make_shared<world::Stream::Pending>();
  q->pend->p = (char *) p;
  q->pend->n = n;
  q->stream->pending.push_back(q->pend);
  return q;
}
void SocketCommunication::send(std::string const &s, Rank r)
{
  size_t n = s.size() + 1;
  put(&n, sizeof n, r);
  put(s.c_str(), n, r);
}
void       SocketCommunication::send(precice::span<const int> v, Rank r) { put(v.data(), v.size() * sizeof(int), r); }
PtrRequest SocketCommunication::aSend(precice::span<const int> v, Rank r) { return aput(v.data(), v.size() * sizeof(int), r); }
void       SocketCommunication::send(precice::span<const double> v, Rank r) { put(v.data(), v.size() * sizeof(double), r); }
PtrRequest SocketCommunication::aSend(precice::span<const double> v, Rank r) { return aput(v.data(), v.size() * sizeof(double), r); }
void       SocketCommunication::send(double v, Rank r) { put(&v, sizeof v, r); }
PtrRequest SocketCommunication::aSend(const double &v, Rank r) { return aput(&v, sizeof v, r); }
void       SocketCommunication::send(int v, Rank r) { put(&v, sizeof v, r); }
PtrRequest SocketCommunication::aSend(const int &v, Rank r) { return aput(&v, sizeof v, r); }
void       SocketCommunication::send(bool v, Rank r) { put(&v, sizeof v, r); }
PtrRequest SocketCommunication::aSend(const bool &v, Rank r) { return aput(&v, sizeof v, r); }
void       SocketCommunication::receive(std::string &s, Rank r)
{
  size_t n = 0;
  get(&n, sizeof n, r);
  std::vector<char> v(n);
  get(v.data(), n, r);
  s = v.data();
}
void       SocketCommunication::receive(precice::span<int> v, Rank r) { get(v.data(), v.size() * sizeof(int), r); }
void       SocketCommunication::receive(precice::span<double> v, Rank r) { get(v.data(), v.size() * sizeof(double), r); }
PtrRequest SocketCommunication::aReceive(precice::span<double> v, int r) { return aget(v.data(), v.size() * sizeof(double), r); }
void       SocketCommunication::receive(double &v, Rank r) { get(&v, sizeof v, r); }
PtrRequest SocketCommunication::aReceive(double &v, Rank r) { return aget(&v, sizeof v, r); }
void       SocketCommunication::receive(int &v, Rank r) { get(&v, sizeof v, r); }
PtrRequest SocketCommunication::aReceive(int &v, Rank r) { return aget(&v, sizeof v, r); }
void       SocketCommunication::receive(bool &v, Rank r) { get(&v, sizeof v, r); }
PtrRequest SocketCommunication::aReceive(bool &v, Rank r) { return aget(&v, sizeof v, r); }
void       SocketCommunication::prepareEstablishment(std::string const &, std::string const &) {}
void       SocketCommunication::cleanupEstablishment(std::string const &, std::string const &) {}

SocketCommunicationFactory::SocketCommunicationFactory(unsigned short portNumber, bool reuseAddress, std::string networkName, std::string addressDirectory)
    : _portNumber(portNumber), _reuseAddress(reuseAddress), _networkName(networkName), _addressDirectory(addressDirectory) {}
SocketCommunicationFactory::SocketCommunicationFactory(std::string const &addressDirectory)
    : _portNumber(0), _reuseAddress(false), _networkName("lo"), _addressDirectory(addressDirectory) {}
PtrCommunication SocketCommunicationFactory::newCommunication() { return std::make_shared<SocketCommunication>(); }
std::string      SocketCommunicationFactory::addressDirectory() { return _addressDirectory; }
} // namespace precice::com

extern "C" void __verif_warn(const char *m)
{
  world::warnings();
  world::warns->push_back(m);
}
