// The MCP2515 driver against a simulated controller.
//   N                              a new driver object
//   B poll osc cs int rx tx code   configure (- leaves the default) and begin; the controller answers code
//   F id ext rtr hex               a frame arrives from the bus
//   L                              the main loop fetches everything available
//   G                              the main loop fetches one frame if one is available
//   S id ext rtr hex ok            send; the controller accepts it (1) or not (0)
//   E rxe txe flags                error registers
//   Z code                         transport reset; the controller answers code
#include "kit.h"
#include <CAN2515.h>
using namespace VLCB;

SPIClass SPI;
static int spiBegins = 0;
void SPIClass::begin() { ++spiBegins; }
void pinMode(int, PinMode) {}
void digitalWrite(int, int) {}
byte digitalRead(int) { return 0; }
unsigned char Serial_T::readBytesUntil(int, char *, int) { return 0; }

struct Chip { bool live, up; int cs, pin; bool spi; std::deque<CANMessage> lib; };
static std::map<const ACAN2515 *, Chip> chips;
static const ACAN2515 *current = nullptr;     // the instance the controller was last set up by
static void (*handler)() = nullptr;           // attached to the interrupt line
static std::deque<CANMessage> hw;             // received by the controller, not fetched yet
static std::vector<std::string> sent, inits;
static int code = 0, accept_ = 1, errs[3], misuse = 0;
static unsigned oscSeen, rateSeen;

static std::string frameJson(uint32_t id, bool x, bool r, int n, const uint8_t *d)
{
  std::string s = "{\"id\":" + std::to_string(std::min<uint32_t>(id, 0x40000000)) + ",\"x\":" + std::to_string(x ? 1 : 0) + ",\"r\":" + std::to_string(r ? 1 : 0) + ",\"n\":" + std::to_string(n);
  return s + ",\"d\":" + arr(d, d + std::min(n, 8)) + "}";
}
static Chip &at(const ACAN2515 *p)
{
  if (p != current) ++misuse;
  return chips[p];
}
static void fetch(Chip &c) { while (!hw.empty()) { c.lib.push_back(hw.front()); hw.pop_front(); } }
ACAN2515Settings::ACAN2515Settings(unsigned long osc, unsigned int rate)
  : mRequestedMode((Mode)-1), mReceiveBufferSize(32), mTransmitBuffer0Size(16), mTransmitBuffer1Size(0), mTransmitBuffer2Size(0) { oscSeen = osc; rateSeen = rate; }
ACAN2515::ACAN2515(uint8_t cs, SPIClass &spi, uint8_t pin) { chips[this] = {true, false, cs, pin, &spi == &SPI, {}}; current = this; }
unsigned short ACAN2515::begin(const ACAN2515Settings &s, void (*isr)())
{
  Chip &c = at(this);
  c.lib.clear(); hw.clear();
  c.up = code == 0;
  handler = c.up && c.pin != 255 ? isr : nullptr;
  inits.push_back("{\"cs\":" + std::to_string(c.cs) + ",\"pin\":" + std::to_string(c.pin) + ",\"spi\":" + std::to_string(c.spi ? 1 : 0) + ",\"osc\":" + std::to_string(oscSeen) + ",\"rate\":" + std::to_string(rateSeen) +
    ",\"normal\":" + std::to_string(s.mRequestedMode == ACAN2515Settings::NormalMode) + ",\"rx\":" + std::to_string(s.mReceiveBufferSize) + ",\"tx\":" + std::to_string(s.mTransmitBuffer0Size) + "}");
  return code;
}
void ACAN2515::isr() { Chip &c = at(this); if (c.up) fetch(c); }
void ACAN2515::poll() { Chip &c = at(this); if (c.up) fetch(c); }
bool ACAN2515::available() { return !at(this).lib.empty(); }
void ACAN2515::receive(CANMessage &m)
{
  Chip &c = at(this);
  if (c.lib.empty()) { ++misuse; return; }
  m = c.lib.front(); c.lib.pop_front();
}
bool ACAN2515::tryToSend(const CANMessage &m)
{
  at(this);
  sent.push_back(frameJson(m.id, m.ext, m.rtr, m.len, m.data));
  return accept_;
}
void ACAN2515::end() { Chip &c = at(this); c.up = false; handler = nullptr; hw.clear(); c.lib.clear(); }
uint16_t ACAN2515::receiveBufferCount() { return at(this).lib.size(); }
uint16_t ACAN2515::receiveBufferPeakCount() { return 1; }
uint16_t ACAN2515::receiveBufferSize() { return 4; }
uint16_t ACAN2515::transmitBufferCount(uint8_t) { return 0; }
uint16_t ACAN2515::transmitBufferPeakCount(uint8_t) { return 1; }
uint16_t ACAN2515::transmitBufferSize(uint8_t) { return 2; }
uint8_t ACAN2515::receiveErrorCounter() { at(this); return errs[0]; }
uint8_t ACAN2515::transmitErrorCounter() { at(this); return errs[1]; }
uint8_t ACAN2515::errorFlagRegister() { at(this); return errs[2]; }

static CANMessage readMsg(std::istringstream &in)
{
  CANMessage m; unsigned id; int x, r; std::string h; in >> id >> x >> r >> h;
  Bytes b = unhex(h);
  m.id = id; m.ext = x; m.rtr = r; m.len = b.size();
  for (size_t i = 0; i < 8; i++) m.data[i] = i < b.size() ? b[i] : 0x5A;
  return m;
}
static std::string join(const std::vector<std::string> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }

void runTrace(const std::vector<std::string> &lines)
{
  CAN2515 *can = nullptr;
  for (size_t i = 1; i < lines.size(); i++)
  {
    std::istringstream in(lines[i]);
    std::string op; in >> op;
    int ok = -1;
    std::string extra = "\"a\":0";
    std::vector<std::string> got;
    sent.clear(); inits.clear(); misuse = 0;
    if (op == "N") { out += "{\"t\":\"" + traceId + "\",\"k\":\"N\"}\n"; continue; }
    if (op == "B")
    {
      std::string a[7];
      for (auto &x : a) in >> x;
      if (!can) can = new CAN2515;
      if (a[1] != "-") can->setOscFreq(strtoul(a[1].c_str(), nullptr, 10));
      if (a[2] != "-") can->setPins(atoi(a[2].c_str()), atoi(a[3].c_str()));
      if (a[4] != "-") can->setNumBuffers(atoi(a[4].c_str()), atoi(a[5].c_str()));
      code = atoi(a[6].c_str());
      ok = (a[0] == "-" ? can->begin() : can->begin(a[0] == "1")) ? 1 : 0;
      extra = "\"a\":{\"poll\":" + std::string(a[0] == "1" ? "1" : "0") + ",\"osc\":" + (a[1] == "-" ? "-1" : a[1]) + ",\"cs\":" + (a[2] == "-" ? "-1" : a[2]) + ",\"pin\":" + (a[2] == "-" ? "-1" : a[3])
        + ",\"rx\":" + (a[4] == "-" ? "-1" : a[4]) + ",\"tx\":" + (a[4] == "-" ? "-1" : a[5]) + ",\"code\":" + a[6] + "}";
    }
    else if (op == "F")
    {
      CANMessage m = readMsg(in);
      hw.push_back(m);
      if (handler) handler();
      extra = "\"a\":" + frameJson(m.id, m.ext, m.rtr, m.len, m.data);
    }
    else if (op == "L" || op == "G")
    {
      for (int n = 0; n < 1000 && can->available(); n++)
      {
        CANFrame f = can->getNextCanFrame();
        got.push_back(frameJson(f.id, f.ext, f.rtr, f.len, f.data));
        if (op == "G") break;
      }
    }
    else if (op == "S")
    {
      CANMessage m = readMsg(in);
      in >> accept_;
      CANFrame *f = new CANFrame;
      f->id = m.id; f->ext = m.ext; f->rtr = m.rtr; f->len = m.len; memcpy(f->data, m.data, 8);
      ok = can->sendCanFrame(f) ? 1 : 0;
      delete f;
      extra = "\"a\":" + frameJson(m.id, m.ext, m.rtr, m.len, m.data) + ",\"acc\":" + std::to_string(accept_);
    }
    else if (op == "E") in >> errs[0] >> errs[1] >> errs[2];
    else if (op == "Z") { in >> code; can->reset(); extra = "\"a\":" + std::to_string(code); }
    else die("bad script line");
    out += "{\"t\":\"" + traceId + "\",\"k\":\"" + op + "\"," + extra + ",\"ok\":" + std::to_string(ok) + ",\"got\":" + join(got) + ",\"sent\":" + join(sent) + ",\"init\":" + join(inits);
    emitf(",\"spi\":%d,\"bad\":%d,\"c\":[%u,%u],\"e\":[%u,%u,%u],\"er\":[%d,%d,%d]}\n", spiBegins, misuse, can->receiveCounter(), can->transmitCounter(),
      can->receiveErrorCounter(), can->transmitErrorCounter(), can->errorStatus(), errs[0], errs[1], errs[2]);
  }
}
