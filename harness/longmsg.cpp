// LongMessageService and LongMessageServiceEx behind a Controller.
//   N b | N x rctx buflen sctx crc      D delay   O timeout   U buflen stream...
//   Z stream hex (send)   P (process)   W ms (time passes, then process)   R hex (a message arrives)
#include "kit.h"
#include "esp_shim.h"
#include <Controller.h>
#include <Configuration.h>
#include <LongMessageService.h>
using namespace VLCB;
namespace VLCB { Storage *createDefaultStorageForPlatform() { return nullptr; } Configuration config((Storage *)nullptr); }
void EspShim::restart() { die("restart"); }

static std::vector<Bytes> tx;
static std::vector<std::vector<int>> cb;
struct Capture : public Service
{
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const Action *a) override
  {
    if (a && a->actionType == ACT_MESSAGE_OUT) { if (a->vlcbMessage.len > 8) die("message longer than 8 bytes"); tx.push_back(Bytes(a->vlcbMessage.data, a->vlcbMessage.data + a->vlcbMessage.len)); }
  }
};
static void handler(void *fragment, const unsigned int len, const byte stream, const byte status)
{
  std::vector<int> v = {status, stream};
  for (unsigned i = 0; i < len; i++) v.push_back(((byte *)fragment)[i]);
  cb.push_back(v);
}
static void handlerEx(void *msg, unsigned int len, byte stream, byte status) { handler(msg, len, stream, status); }

template <class V> static std::string arr2(const V &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += arr(v[i]); } return s + "]"; }

void runTrace(const std::vector<std::string> &lines)
{
  g_millis = 1000;
  Capture cap;
  LongMessageService *svc = nullptr;
  LongMessageServiceEx *ex = nullptr;
  Controller *ctrl = nullptr;
  std::vector<byte *> keep;
  auto drain = [&] { for (int i = 0; i < 100; i++) { if (!ctrl->pendingAction()) return; ctrl->process(); } die("never idle"); };
  for (size_t i = 1; i < lines.size(); i++)
  {
    std::istringstream in(lines[i]);
    std::string op; in >> op;
    std::string extra;
    int ret = -1;
    tx.clear(); cb.clear();
    if (op == "N")
    {
      std::string kind; in >> kind;
      if (kind == "x")
      {
        int r, b, s, crc; in >> r >> b >> s >> crc;
        svc = ex = new LongMessageServiceEx;
        if (!ex->allocateContexts(r, b, s)) die("no memory");
        ex->use_crc(crc);
        extra = "\"ex\":1,\"a\":[" + std::to_string(r) + "," + std::to_string(b) + "," + std::to_string(s) + "," + std::to_string(crc) + "]";
      }
      else { svc = new LongMessageService; extra = "\"ex\":0,\"a\":[1,0,1,0]"; }
      ctrl = new Controller(&VLCB::config, {svc, &cap});
      svc->begin(); cap.begin();
    }
    else if (op == "D") { int d; in >> d; svc->setDelay(d); extra = "\"a\":" + std::to_string(d); }
    else if (op == "O") { int d; in >> d; svc->setTimeout(d); extra = "\"a\":" + std::to_string(d); }
    else if (op == "M") { in >> g_millis; continue; }
    else if (op == "U")
    {
      int bl; in >> bl;
      std::vector<int> ids; int x; while (in >> x) ids.push_back(x);
      byte *a = new byte[ids.size() ? ids.size() : 1];
      for (size_t k = 0; k < ids.size(); k++) a[k] = ids[k];
      if (ex) ex->subscribe(a, ids.size(), handlerEx);
      else svc->subscribe(a, ids.size(), new byte[bl], bl, handler);
      extra = "\"b\":" + std::to_string(bl) + ",\"a\":" + arr(ids);
    }
    else if (op == "Z")
    {
      int st; std::string h; in >> st >> h;
      Bytes b = unhex(h);
      byte *m = (byte *)malloc(b.size());
      memcpy(m, b.data(), b.size());
      ret = (ex ? ex->sendLongMessage(m, b.size(), st) : svc->sendLongMessage(m, b.size(), st)) ? 1 : 0;
      if (ex) { memset(m, 0xDD, b.size()); free(m); }       // the caller may reuse its buffer
      drain();
      extra = "\"s\":" + std::to_string(st) + ",\"a\":" + arr(b);
    }
    else if (op == "P" || op == "W")
    {
      unsigned ms = 0; if (op == "W") in >> ms;
      g_millis += ms;
      if (ex) ex->process(); else svc->process();
      drain();
      extra = "\"a\":" + std::to_string(ms); op = "P";
    }
    else if (op == "R")
    {
      std::string h; in >> h;
      Bytes b = unhex(h);
      Action a = {ACT_MESSAGE_IN};
      a.vlcbMessage.len = b.size();
      memset(a.vlcbMessage.data, 0x99, 8);
      memcpy(a.vlcbMessage.data, b.data(), b.size());
      ctrl->putAction(a);
      drain();
      extra = "\"a\":" + arr(b);
    }
    else die("bad script line");
    int busy = ex ? ex->is_sending() : svc->is_sending();
    out += "{\"t\":\"" + traceId + "\",\"k\":\"" + op + "\"," + extra + ",\"ret\":" + std::to_string(ret) + ",\"tx\":" + arr2(tx) + ",\"cb\":" + arr2(cb) + ",\"bs\":" + std::to_string(busy) + "}\n";
  }
}
