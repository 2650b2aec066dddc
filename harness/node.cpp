// Drives one or several complete nodes (Controller + Configuration + services) with scripted stimuli and
// records, per stimulus, everything observable: frames, callbacks, indications, identity and the state a
// power cycle would leave.  Reads a script on stdin, writes one JSON record per observed stimulus on stdout.
#include "arduino_env.h"
#include "esp_shim.h"
#include <Controller.h>
#include <Configuration.h>
#include <Parameters.h>
#include <Storage.h>
#include <CanTransport.h>
#include "CanService.h"
#include "CanServiceWithDiagnostics.h"
#include "MinimumNodeService.h"
#include "MinimumNodeServiceWithDiagnostics.h"
#include "NodeVariableService.h"
#include "EventConsumerService.h"
#include "EventConsumerServiceWithDiagnostics.h"
#include "EventProducerService.h"
#include "EventProducerServiceWithDiagnostics.h"
#include "EventTeachingService.h"
#include "EventTeachingServiceWithDiagnostics.h"
#include "ConsumeOwnEventsService.h"
#include "LongMessageService.h"

using namespace VLCB;

namespace VLCB { Storage *createDefaultStorageForPlatform() { return nullptr; } Configuration config((Storage *)nullptr); }

struct Reboot {};
struct PowerCut {};
void EspShim::restart() { throw Reboot(); }

static std::string out;
static void emitf(const char *fmt, ...) { char b[256]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); out += b; }
static void flushOut() { size_t o = 0; while (o < out.size()) { ssize_t n = write(1, out.data() + o, out.size() - o); if (n <= 0) _exit(9); o += n; } out.clear(); }
[[noreturn]] static void die(const char *msg) { fprintf(stderr, "fatal: %s\n", msg); flushOut(); _exit(3); }

static const unsigned STORE = 8192;
class MemStorage : public Storage
{
public:
  std::vector<byte> m = std::vector<byte>(STORE, 0xff);
  std::vector<std::pair<unsigned, byte>> log;   // addr 0xFFFFFFFF = bulk reset
  long cut = -1;                                // power fails after this many more writes
  bool quiet = false;
  void begin() override {}
  void chk(unsigned a) { if (a >= STORE) die("storage access out of range"); }
  byte read(unsigned int a) override { chk(a); return m[a]; }
  byte readBytes(unsigned int a, byte n, byte d[]) override { for (int i = 0; i < n; i++) d[i] = read(a + i); return n; }
  void put(unsigned a, byte v)
  {
    chk(a);
    if (cut == 0) throw PowerCut();
    if (cut > 0) --cut;
    if (!quiet) log.push_back({a, v});
    m[a] = v;
  }
  void write(unsigned int a, byte v) override { put(a, v); }
  void writeBytes(unsigned int a, const byte s[], byte n) override { for (int i = 0; i < n; i++) put(a + i, s[i]); }
  void reset() override
  {
    if (cut == 0) throw PowerCut();
    if (cut > 0) --cut;
    if (!quiet) log.push_back({0xFFFFFFFFu, 0});
    bulk(m);
  }
  static void bulk(std::vector<byte> &m) { for (unsigned a = 10; a < 4096; a++) m[a] = 0xff; }
};

struct Node;
class Transport1 : public CanTransport
{
public:
  std::deque<CANFrame> rx;
  Node *node;
  unsigned rxe = 0, txe = 0, sta = 0, txc = 0, rxc = 0, resets = 0;
  bool available() override { return !rx.empty(); }
  CANFrame getNextCanFrame() override
  {
    if (rx.empty()) die("getNextCanFrame on empty transport");
    CANFrame f = rx.front(); rx.pop_front(); return f;
  }
  bool sendCanFrame(CANFrame *f) override;
  void reset() override { ++resets; }
  unsigned int receiveCounter() override { return rxc; }
  unsigned int transmitCounter() override { return txc; }
  unsigned int receiveErrorCounter() override { return rxe; }
  unsigned int transmitErrorCounter() override { return txe; }
  unsigned int errorStatus() override { return sta; }
};

class Observer : public Service      // a user-interface service: hidden, sees the actions
{
public:
  Node *node;
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const Action *a) override;
};

struct Proj                          // what a freshly powered-up node finds in storage
{
  int mode = 255, canid = 0, nn = 0, hb = 0, rst = 0;
  std::vector<int> nv;
  std::vector<std::vector<int>> ev;  // empty = free
  bool operator<(const Proj &o) const { return std::tie(mode, canid, nn, hb, rst, nv, ev) < std::tie(o.mode, o.canid, o.nn, o.hb, o.rst, o.nv, o.ev); }
};

struct Node
{
  // configuration
  int nvs = 4, maxev = 5, evs = 2, prod = 0, ch = 1, ph = 1, nvstart = 10, evstart = 0, crash = 0, multi = 0;
  std::vector<std::string> svcs;
  int pmaj = 1, pmin = 'a', pbeta = 0, pmanu = -1, pmtyp = 99, setcpu = 0, cpuman = 0, cpuid = 0;
  std::string cpuname = "ABCD", name = "NODENAM";
  unsigned char nameBytes[8];
  // parts
  MemStorage st;
  Transport1 tp;
  Configuration *conf = nullptr;
  Controller *ctrl = nullptr;
  std::vector<Service *> parts;
  EventProducerService *prodSvc = nullptr;
  unsigned char *params = nullptr;
  unsigned char ownParams[21];
  uint32_t base = 0;
  // observations
  std::vector<CANFrame> tx, dx;
  std::vector<std::vector<int>> hist; // event entries as they changed between processing rounds
  size_t histLog = 0;
  Proj histLast;
  std::deque<CANFrame> bus;          // frames waiting for the bus (bus mode)
  struct CB { int kind, idx; VlcbMessage m; };
  std::vector<CB> cb;
  std::vector<int> md;
  int act = 0, rb = 0, cutHit = 0;
  uint32_t seen = 0, dt = 0;
  std::vector<byte> preImage;
  std::deque<CANFrame> inbox;        // frames received, not yet taken (bus mode)
  Proj last;

  void configureLike(Configuration &c)
  {
    c.EE_NVS_START = nvstart; c.EE_NUM_NVS = nvs; c.EE_MAX_EVENTS = maxev; c.EE_NUM_EVS = evs; c.EE_PRODUCED_EVENTS = prod;
    if (evstart) c.EE_EVENTS_START = evstart;
  }
  unsigned evAddr() { return evstart ? evstart : nvstart + nvs; }

  void destroy()
  {
    delete ctrl; ctrl = nullptr;
    for (auto s : parts) delete s;
    parts.clear(); prodSvc = nullptr;
    delete conf; conf = nullptr;
  }
  void build();
  void boot();
  void pump(int max, bool drain);
  void act1(const std::vector<int> &a);
  void track();
  template <class Fn> void guarded(Fn f);
  Proj project(std::vector<byte> image);
};

static std::vector<Node *> nodes;
static Node *sel = nullptr;          // node the script addresses
static Node *cur = nullptr;          // node whose code is running (for the plain-function callbacks)

bool Transport1::sendCanFrame(CANFrame *f)
{
  if (f->len > 8) die("frame longer than 8 bytes sent");
  CANFrame c = *f;
  for (int i = c.len; i < 8; i++) c.data[i] = 0;
  if (f->rtr || f->len == 0) node->dx.push_back(c); else node->tx.push_back(c);
  if (node->multi) node->bus.push_back(c);
  return true;
}
void Observer::process(const Action *a)
{
  if (!a) return;
  if (a->actionType == ACT_INDICATE_ACTIVITY) ++node->act;
  if (a->actionType == ACT_INDICATE_MODE) node->md.push_back(a->mode);
}
static void onEvent(byte i, const VlcbMessage *m) { cur->cb.push_back({0, i, *m}); }
static void onRequest(byte i, const VlcbMessage *m) { cur->cb.push_back({1, i, *m}); }

static Controller *makeController(Configuration *c, std::vector<Service *> &v)
{
  switch (v.size())
  {
    case 1: return new Controller(c, {v[0]});
    case 2: return new Controller(c, {v[0], v[1]});
    case 3: return new Controller(c, {v[0], v[1], v[2]});
    case 4: return new Controller(c, {v[0], v[1], v[2], v[3]});
    case 5: return new Controller(c, {v[0], v[1], v[2], v[3], v[4]});
    case 6: return new Controller(c, {v[0], v[1], v[2], v[3], v[4], v[5]});
    case 7: return new Controller(c, {v[0], v[1], v[2], v[3], v[4], v[5], v[6]});
    case 8: return new Controller(c, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]});
    case 9: return new Controller(c, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]});
    case 10: return new Controller(c, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]});
    default: die("bad service count");
  }
}

void Node::build()
{
  destroy();
  conf = new Configuration(&st);
  configureLike(*conf);
  tp.node = this;
  tp.rx.clear();
  EventConsumerService *cons = nullptr;
  for (auto &s : svcs)
  {
    Service *p = nullptr;
    if (s == "M") p = new MinimumNodeService;
    else if (s == "MD") p = new MinimumNodeServiceWithDiagnostics;
    else if (s == "C") p = new CanService(&tp);
    else if (s == "CD") p = new CanServiceWithDiagnostics(&tp);
    else if (s == "N") p = new NodeVariableService;
    else if (s == "E") p = cons = new EventConsumerService;
    else if (s == "ED") p = cons = new EventConsumerServiceWithDiagnostics;
    else if (s == "P") p = prodSvc = new EventProducerService;
    else if (s == "PD") p = prodSvc = new EventProducerServiceWithDiagnostics;
    else if (s == "T") p = new EventTeachingService;
    else if (s == "TD") p = new EventTeachingServiceWithDiagnostics;
    else if (s == "O") p = new ConsumeOwnEventsService;
    else if (s == "L") p = new LongMessageService;
    else if (s == "U") { auto o = new Observer; o->node = this; p = o; }
    else die("unknown service");
    parts.push_back(p);
  }
  ctrl = makeController(conf, parts);
  Parameters ps(*conf);
  ps.setVersion(pmaj, pmin, pbeta);
  if (pmanu >= 0) ps.setManufacturer(pmanu);
  ps.setModuleId(pmtyp);
  if (setcpu) ps.setProcessor(cpuman, cpuid, cpuname.c_str());
  params = ps.getParams();
  if (multi) { memcpy(ownParams, params, 21); params = ownParams; }
  ctrl->setParams(params);
  memcpy(nameBytes, name.data(), 7);
  ctrl->setName(nameBytes);
  if (cons && ch) cons->setEventHandler(onEvent);
  if (prodSvc && ph) prodSvc->setRequestEventHandler(onRequest);
}

void Node::boot()
{
  for (int tries = 0; ; tries++)
  {
    if (tries > 3) die("node restarts for ever");
    if (!multi) { g_millis = base; seen = base; }
    build();
    cur = this;
    try { ctrl->begin(); return; }
    catch (Reboot &) { ++rb; }
  }
}

template <class Fn> void Node::guarded(Fn f)
{
  cur = this;
  try { f(); }
  catch (Reboot &) { ++rb; boot(); }
  catch (PowerCut &) { st.cut = -1; cutHit = 1; rb = 0; tx.clear(); dx.clear(); cb.clear(); md.clear(); act = 0; bus.clear(); boot(); }
}

void Node::pump(int max, bool drain)
{
  int idle = 0;
  for (int i = 0; i < max; i++)
  {
    bool busy = !tp.rx.empty() || ctrl->pendingAction();
    guarded([&] { ctrl->process(); });
    track();
    if (drain) { if (busy) idle = 0; else if (++idle >= 4) return; }
  }
  if (drain) die("node never becomes idle");
}

void Node::act1(const std::vector<int> &a)
{
  guarded([&] {
    switch (a[0])
    {
      case 0: ctrl->putAction(ACT_CHANGE_MODE); break;
      case 1: ctrl->putAction(ACT_RENEGOTIATE); break;
      case 2: ctrl->putAction(ACT_START_CAN_ENUMERATION); break;
      case 3: if (prodSvc) switch (a[3]) {
          case 0: prodSvc->sendEvent(a[1], a[2]); break;
          case 1: prodSvc->sendEvent(a[1], a[2], a[4]); break;
          case 2: prodSvc->sendEvent(a[1], a[2], a[4], a[5]); break;
          case 3: prodSvc->sendEvent(a[1], a[2], a[4], a[5], a[6]); break;
        } break;
      case 4: if (prodSvc) switch (a[3]) {
          case 0: prodSvc->sendEventResponse(a[1], a[2]); break;
          case 1: prodSvc->sendEventResponse(a[1], a[2], a[4]); break;
          case 2: prodSvc->sendEventResponse(a[1], a[2], a[4], a[5]); break;
          case 3: prodSvc->sendEventResponse(a[1], a[2], a[4], a[5], a[6]); break;
        } break;
      case 5: conf->setEventAck(a[1]); break;
      case 9: break;
      default: die("unknown action");
    }
  });
  track();
}

void Node::track()
{
  if (st.log.size() == histLog) return;
  histLog = st.log.size();
  Proj p = project(st.m);
  if (histLast.ev.size() != p.ev.size()) histLast = p;
  for (size_t i = 0; i < p.ev.size(); i++) if (p.ev[i] != histLast.ev[i] && !p.ev[i].empty())
  {
    std::vector<int> row{(int)i};
    row.insert(row.end(), p.ev[i].begin(), p.ev[i].end());
    hist.push_back(row);
  }
  histLast = p;
}

Proj Node::project(std::vector<byte> image)
{
  MemStorage s2; s2.m = image; s2.quiet = true;
  Configuration c2(&s2);
  Proj p;
  for (int i = 0; ; i++)
  {
    if (i > 3) die("projection restarts for ever");
    configureLike(c2);
    try { c2.begin(); break; } catch (Reboot &) {}
  }
  p.mode = c2.currentMode; p.canid = c2.CANID; p.nn = c2.nodeNum; p.hb = c2.heartbeat + 2 * c2.eventAck; p.rst = c2.isResetFlagSet();
  for (int i = 1; i <= nvs; i++) p.nv.push_back(c2.readNV(i));
  for (int i = 0; i < maxev; i++)
  {
    std::vector<int> row;
    if (c2.getEvTableEntry(i) != 0)
    {
      byte e[4]; c2.readEvent(i, e);
      row.push_back(e[0] * 256 + e[1]); row.push_back(e[2] * 256 + e[3]);
      for (int k = 1; k <= evs; k++) row.push_back(c2.getEventEVval(i, k));
    }
    p.ev.push_back(row);
  }
  return p;
}

static void emitDiff(const Proj &a, const Proj &b)
{
  emitf("\"dk\":[%d,%d,%d,%d,%d],\"nv\":[", b.mode, b.canid, b.nn, b.hb, b.rst);
  bool first = true;
  for (size_t i = 0; i < b.nv.size(); i++) if (a.nv[i] != b.nv[i]) { emitf("%s[%d,%d]", first ? "" : ",", (int)i + 1, b.nv[i]); first = false; }
  emitf("],\"ev\":[");
  first = true;
  for (size_t i = 0; i < b.ev.size(); i++) if (a.ev[i] != b.ev[i])
  {
    emitf("%s[%d", first ? "" : ",", (int)i);
    for (int v : b.ev[i]) emitf(",%d", v);
    emitf("]"); first = false;
  }
  emitf("]");
}

static void emitFrames(const char *key, const std::vector<CANFrame> &v)
{
  emitf("\"%s\":[", key);
  for (size_t i = 0; i < v.size(); i++)
  {
    emitf("%s[%u,%d,%d,%d", i ? "," : "", (unsigned)v[i].id, v[i].ext ? 1 : 0, v[i].rtr ? 1 : 0, v[i].len);
    for (int k = 0; k < v[i].len; k++) emitf(",%d", v[i].data[k]);
    emitf("]");
  }
  emitf("],");
}


static std::string traceId;

static void beginObs(Node *n)
{
  n->tx.clear(); n->dx.clear(); n->cb.clear(); n->md.clear(); n->act = 0; n->rb = 0; n->cutHit = 0; n->st.log.clear();
  n->hist.clear(); n->histLog = 0; n->histLast = n->last;
  n->preImage = n->st.m;
  uint32_t b = n->seen;
  n->dt = g_millis - b; n->seen = g_millis;
}

static int rank(Node *n) { for (size_t i = 0; i < nodes.size(); i++) if (nodes[i] == n) return i + 1; return 0; }

// one record: what the node did in response to the stimulus (stim is a JSON fragment "k":..,)
static void observe(Node *n, const std::string &stim)
{
  emitf("{\"t\":\"%s\",\"n\":%d,\"dt\":%u,", traceId.c_str(), rank(n), n->dt);
  out += stim; out += ",";
  emitFrames("tx", n->tx); emitFrames("dx", n->dx);
  emitf("\"cb\":[");
  for (size_t i = 0; i < n->cb.size(); i++)
  {
    auto &c = n->cb[i];
    emitf("%s[%d,%d,%d", i ? "," : "", c.kind, c.idx, c.m.len);
    for (int k = 0; k < c.m.len && k < 8; k++) emitf(",%d", c.m.data[k]);
    emitf("]");
  }
  emitf("],\"md\":[");
  for (size_t i = 0; i < n->md.size(); i++) emitf("%s%d", i ? "," : "", n->md[i]);
  emitf("],\"ac\":%d,\"fl\":%d,\"rb\":%d,\"cut\":%d,\"lv\":[%d,%d,%d,%d],", n->act, n->params[PAR_FLAGS], n->rb, n->cutHit, n->conf->currentMode, n->conf->CANID, n->conf->nodeNum, (n->conf->heartbeat ? 1 : 0) + (n->conf->eventAck ? 2 : 0));
  // live view versus a fresh power-up on the same storage
  MemStorage &st = n->st;
  Proj p = n->project(st.m);
  int rm = 0;
  {
    MemStorage s2; s2.m = st.m; s2.quiet = true;
    Configuration c2(&s2);
    for (int i = 0; i < 3; i++) { n->configureLike(c2); try { c2.begin(); break; } catch (Reboot &) {} }
    for (int i = 0; i < n->maxev; i++) if ((c2.getEvTableEntry(i) == 0) != (n->conf->getEvTableEntry(i) == 0)) ++rm;
    if (c2.numEvents() != n->conf->numEvents()) ++rm;
  }
  unsigned ev0 = n->evAddr(), ev1 = ev0 + n->maxev * (4 + n->evs);
  int sw = 0;
  for (auto &w : st.log)
    if (w.first != 0xFFFFFFFFu && !(w.first < 10 || (w.first >= (unsigned)n->nvstart && w.first < (unsigned)(n->nvstart + n->nvs)) || (w.first >= ev0 && w.first < ev1))) ++sw;
  emitf("\"rm\":%d,\"sw\":%d,\"wr\":%d,\"im\":%d,", rm, sw, (int)st.log.size(), st.m == n->preImage ? 0 : 1);
  emitf("\"cp\":[");
  if (n->crash && !n->rb)
  {
    std::set<Proj> seen;
    std::vector<byte> im = n->preImage;
    bool first = true;
    for (auto &w : st.log)
    {
      if (w.first == 0xFFFFFFFFu) MemStorage::bulk(im); else im[w.first] = w.second;
      Proj q = n->project(im);
      if (!seen.insert(q).second) continue;
      emitf(first ? "{" : ",{"); emitDiff(n->last, q); emitf("}"); first = false;
    }
  }
  emitf("],");
  emitf("\"hs\":[");
  bool firstRow = true;
  for (auto &row : n->hist)
  {
    if (std::vector<int>(row.begin() + 1, row.end()) == p.ev[row[0]]) continue;
    emitf("%s[%d", firstRow ? "" : ",", row[0]);
    for (size_t k = 1; k < row.size(); k++) emitf(",%d", row[k]);
    emitf("]"); firstRow = false;
  }
  emitf("],");
  emitDiff(n->last, p);
  n->last = p;
  emitf("}\n");
  n->st.cut = -1;
  flushOut();
}

static std::string arr(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }

struct Item { bool isFrame; CANFrame f; std::vector<int> a; };

static std::string frameJson(const CANFrame &f)
{
  std::vector<int> d(f.data, f.data + f.len);
  return "{\"id\":" + std::to_string((unsigned)f.id) + ",\"x\":" + std::to_string((int)f.ext) + ",\"r\":" + std::to_string((int)f.rtr) + ",\"d\":" + arr(d) + "}";
}

static Item parseItem(std::istringstream &in)
{
  Item it; std::string w; in >> w;
  it.isFrame = (w == "F");
  if (it.isFrame)
  {
    unsigned id; int x, r; std::string hex = "";
    in >> id >> x >> r >> hex;
    it.f.id = id; it.f.ext = x; it.f.rtr = r; it.f.len = 0;
    memset(it.f.data, 0xA5, sizeof it.f.data);           // bytes beyond the length are arbitrary
    if (hex != "-") for (size_t i = 0; i + 1 < hex.size(); i += 2) it.f.data[it.f.len++] = strtol(hex.substr(i, 2).c_str(), 0, 16);
  }
  else if (w == "A") { int v; while (in >> v) it.a.push_back(v); }
  else die("bad item");
  return it;
}

// a status response is only asked for stored entries: take the next one from the index the script gives
static void resolve(Node *n, Item &it)
{
  if (it.isFrame || it.a[0] != 4) return;
  for (int k = 0; k < n->maxev; k++)
  {
    int i = (it.a[2] + k) % n->maxev;
    if (n->conf->getEvTableEntry(i) != 0) { it.a[2] = i; return; }
  }
  it.a = {9};
}

static void pushItem(Node *n, const Item &it)
{
  if (it.isFrame) n->tp.rx.push_back(it.f); else n->act1(it.a);
}

static Node *newNode(std::istringstream &in)
{
  Node *n = new Node;
  std::string kv;
  while (in >> kv)
  {
    size_t e = kv.find('=');
    std::string k = kv.substr(0, e), v = kv.substr(e + 1);
    int x = atoi(v.c_str());
    if (k == "nvs") n->nvs = x; else if (k == "maxev") n->maxev = x; else if (k == "evs") n->evs = x; else if (k == "prod") n->prod = x;
    else if (k == "ch") n->ch = x; else if (k == "ph") n->ph = x; else if (k == "nvstart") n->nvstart = x; else if (k == "evstart") n->evstart = x;
    else if (k == "crash") n->crash = x; else if (k == "multi") n->multi = x; else if (k == "base") n->base = strtoul(v.c_str(), 0, 10);
    else if (k == "maj") n->pmaj = x; else if (k == "min") n->pmin = x; else if (k == "beta") n->pbeta = x; else if (k == "manu") n->pmanu = x; else if (k == "mtyp") n->pmtyp = x;
    else if (k == "cpu") { n->setcpu = 1; sscanf(v.c_str(), "%d,%d", &n->cpuman, &n->cpuid); }
    else if (k == "cpuname") n->cpuname = v; else if (k == "name") n->name = v;
    else if (k == "svcs") { std::istringstream ss(v); std::string t; while (std::getline(ss, t, ',')) n->svcs.push_back(t); }
    else die("bad config key");
  }
  return n;
}

static void emitConfig(Node *n)
{
  emitf("{\"t\":\"%s\",\"n\":%d,\"k\":\"C\",\"c\":{\"nvs\":%d,\"maxev\":%d,\"evs\":%d,\"prod\":%d,\"ch\":%d,\"ph\":%d,\"crash\":%d,", traceId.c_str(), rank(n), n->nvs, n->maxev, n->evs, n->prod, n->ch, n->ph, n->crash);
  emitf("\"base\":%d,\"bs\":%d,\"bm\":%d,\"maj\":%d,\"min\":%d,\"beta\":%d,\"manu\":%d,\"mtyp\":%d,\"cpuman\":%d,\"cpuid\":%d,\"name\":[", (int)std::min<uint32_t>(n->base, 200000), (int)(n->base / 1000), (int)(n->base % 1000), n->pmaj & 255, n->pmin & 255, n->pbeta & 255, n->pmanu < 0 ? 250 : n->pmanu, n->pmtyp, n->setcpu ? n->cpuman : 2, n->setcpu ? n->cpuid : 50);
  for (int i = 0; i < 7; i++) emitf("%s%d", i ? "," : "", (unsigned char)n->name[i]);
  emitf("],\"cpu\":[");
  for (int i = 0; i < 4; i++) emitf("%s%d", i ? "," : "", n->setcpu ? (unsigned char)n->cpuname[i] : '?');
  emitf("],\"sv\":[");
  for (size_t i = 0; i < n->svcs.size(); i++) emitf("%s\"%s\"", i ? "," : "", n->svcs[i].c_str());
  emitf("]}}\n");
}

// full description of what is stored at first power-up
static void emitInitial(Node *n)
{
  n->last = Proj();
  n->last.nv.assign(n->nvs, -1);
  n->last.ev.assign(n->maxev, {});
  Proj p = n->project(n->st.m);
  emitf("{\"t\":\"%s\",\"n\":%d,\"k\":\"I\",\"vg\":%d,", traceId.c_str(), rank(n), n->st.m[0] == 0xff && n->st.m[2] == 0xff && n->st.m[3] == 0xff);
  emitDiff(n->last, p);
  emitf("}\n");
  n->last = p;
}

// a node on a bus takes the next k frames it received
static void take(Node *m, int k)
{
  beginObs(m);
  std::string js, one;
  int n = 0;
  for (; n < k && !m->inbox.empty(); n++)
  {
    CANFrame f = m->inbox.front(); m->inbox.pop_front();
    m->tp.rx.push_back(f);
    one = "\"k\":\"F\",\"f\":" + frameJson(f);
    js += (n ? ",{" : "{") + one + "}";
  }
  m->pump(5000, true);
  observe(m, n == 1 ? one : "\"k\":\"Q\",\"q\":[" + js + "]");
}

static void runTrace(const std::vector<std::string> &lines)
{
  for (auto &line : lines)
  {
    std::istringstream in(line);
    std::string op; in >> op;
    Node *n = nodes.empty() ? nullptr : sel;
    if (op == "T") in >> traceId;
    else if (op == "C") { sel = newNode(in); nodes.push_back(sel); emitConfig(sel); }
    else if (op == "n") { int i; in >> i; sel = nodes.at(i - 1); }
    else if (op == "S")                                   // initial storage contents
    {
      unsigned a; std::string hex; in >> a >> hex;
      for (size_t i = 0; i + 1 < hex.size(); i += 2) n->st.m[a++] = strtol(hex.substr(i, 2).c_str(), 0, 16);
    }
    else if (op == "B")
    {
      for (auto m : nodes) if (!m->conf)
      {
        emitInitial(m);
        m->seen = m->multi ? g_millis : m->base;
        if (!m->multi) g_millis = m->base;
        beginObs(m); m->boot(); m->pump(2000, true);
        observe(m, "\"k\":\"B\"");
      }
    }
    else if (op == "F" || op == "A")
    {
      in.clear(); in.seekg(0);
      Item it = parseItem(in);
      resolve(n, it);
      beginObs(n); pushItem(n, it); n->pump(5000, true);
      observe(n, it.isFrame ? "\"k\":\"F\",\"f\":" + frameJson(it.f) : "\"k\":\"A\",\"a\":" + arr(it.a));
    }
    else if (op == "Q")                                   // burst: everything arrives before the node gets to run
    {
      std::string rest, part; std::getline(in, rest);
      std::istringstream parts(rest);
      std::string js = "\"k\":\"Q\",\"q\":[";
      beginObs(n);
      bool first = true;
      while (std::getline(parts, part, ';'))
      {
        std::istringstream pi(part);
        Item it = parseItem(pi);
        pushItem(n, it);
        js += (first ? "" : ",") + (it.isFrame ? "{\"k\":\"F\",\"f\":" + frameJson(it.f) + "}" : "{\"k\":\"A\",\"a\":" + arr(it.a) + "}");
        first = false;
      }
      n->pump(5000, true);
      observe(n, js + "]");
    }
    else if (op == "W")
    {
      unsigned ms; in >> ms; g_millis += ms;
      beginObs(n); n->pump(5000, true);
      observe(n, "\"k\":\"W\"");
    }
    else if (op == "w")                                   // time passes for all nodes
    {
      unsigned ms; in >> ms; g_millis += ms;
      for (auto m : nodes) { beginObs(m); m->pump(5000, true); observe(m, "\"k\":\"W\""); }
    }
    else if (op == "V")                                   // node i's first waiting frame wins the bus: all others receive it
    {
      int i; in >> i; Node *m = nodes.at(i - 1);
      if (m->bus.empty()) continue;
      CANFrame f = m->bus.front(); m->bus.pop_front();
      for (auto o : nodes) if (o != m) o->inbox.push_back(f);
      emitf("{\"t\":\"%s\",\"n\":%d,\"k\":\"V\",\"f\":%s}\n", traceId.c_str(), i, frameJson(f).c_str());
    }
    else if (op == "D")                                   // D i [k]: node i takes the next frame it received (the next k at once)
    {
      int i, k = 1; in >> i >> k; Node *m = nodes.at(i - 1);
      if (!m->inbox.empty()) take(m, k);
    }
    else if (op == "G")                                   // G seed [k]: everything sent is delivered, in an arbitrary order (up to k frames at once)
    {
      unsigned seed, most = 1; in >> seed >> most;
      for (int guard = 0; ; guard++)
      {
        if (guard > 5000) die("bus never settles");
        std::vector<std::pair<int, Node *>> ch;
        for (auto m : nodes) { if (!m->bus.empty()) ch.push_back({0, m}); if (!m->inbox.empty()) ch.push_back({1, m}); }
        if (ch.empty()) break;
        seed = seed * 1103515245u + 12345u;
        auto c = ch[(seed >> 16) % ch.size()];
        Node *m = c.second;
        if (c.first == 0)
        {
          CANFrame f = m->bus.front(); m->bus.pop_front();
          for (auto o : nodes) if (o != m) o->inbox.push_back(f);
          emitf("{\"t\":\"%s\",\"n\":%d,\"k\":\"V\",\"f\":%s}\n", traceId.c_str(), rank(m), frameJson(f).c_str());
        }
        else take(m, most > 1 ? 1 + (seed >> 8) % most : 1);
      }
      emitf("{\"t\":\"%s\",\"n\":1,\"k\":\"G\"}\n", traceId.c_str());
    }
    else if (op == "U") emitf("{\"t\":\"%s\",\"n\":1,\"k\":\"U\"}\n", traceId.c_str());   // the script says: every node has transmitted in turn
    else if (op == "H")                                   // an outside tool (no node number of its own) puts a frame on the bus
    {
      in.clear(); in.seekg(0); in >> op;
      std::string rest; std::getline(in, rest);
      std::istringstream pi("F" + rest);
      Item it = parseItem(pi);
      for (auto o : nodes) o->inbox.push_back(it.f);
      emitf("{\"t\":\"%s\",\"n\":0,\"k\":\"V\",\"f\":%s}\n", traceId.c_str(), frameJson(it.f).c_str());
    }
    else if (op == "X")
    {
      n->destroy();
      if (!n->multi) { g_millis = n->base; n->seen = n->base; }
      n->bus.clear(); n->inbox.clear();
      beginObs(n); n->boot(); n->pump(2000, true);
      observe(n, "\"k\":\"X\"");
    }
    else if (op == "K") { int k; in >> k; n->st.cut = k; }
    else if (op == "O")
    {
      unsigned a[5]; for (auto &x : a) in >> x;
      n->tp.rxe = a[0]; n->tp.txe = a[1]; n->tp.sta = a[2]; n->tp.txc = a[3]; n->tp.rxc = a[4];
      emitf("{\"t\":\"%s\",\"n\":%d,\"k\":\"O\",\"o\":[%u,%u,%u,%u,%u]}\n", traceId.c_str(), rank(n), a[0], a[1], a[2], a[3], a[4]);
    }
    else if (op == "f" || op == "a")                      // arrives, the node does not run
    {
      in.clear(); in.seekg(0); in >> op;
      std::string rest; std::getline(in, rest);
      std::istringstream pi((op == "f" ? "F" : "A") + rest);
      Item it = parseItem(pi);
      beginObs(n); pushItem(n, it);
      observe(n, it.isFrame ? "\"k\":\"pf\",\"f\":" + frameJson(it.f) : "\"k\":\"pa\",\"a\":" + arr(it.a));
    }
    else if (op == "p")                                   // the node's main loop runs k times
    {
      int k; in >> k;
      beginObs(n); n->pump(k, false);
      observe(n, "\"k\":\"pp\",\"np\":" + std::to_string(k));
    }
    else die("bad script line");
  }
}

int main()
{
  std::vector<std::vector<std::string>> traces;
  std::string line;
  while (std::getline(std::cin, line))
  {
    if (line.empty()) continue;
    if (line[0] == 'T') traces.push_back({});
    traces.back().push_back(line);
  }
  int failed = 0;
  for (auto &t : traces)
  {
    if (failed >= 4) break;                               // enough to show it
    pid_t pid = fork();
    if (pid < 0) return 4;
    if (pid == 0)
    {
      int dn = dup(2); (void)dn;
      alarm(10);
      runTrace(t);
      flushOut();
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
    {
      ++failed;
      std::string id = t[0].substr(2);
      int why = WIFSIGNALED(status) ? WTERMSIG(status) : -WEXITSTATUS(status);
      emitf("{\"t\":\"%s\",\"n\":0,\"k\":\"crash\",\"why\":%d}\n", id.c_str(), why);
      flushOut();
    }
  }
  return 0;
}
