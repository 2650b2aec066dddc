// LEDUserInterface and SerialUserInterface with pins, serial input and a controller.
//   N l | N s nvs maxevents evs    which user interface
//   M ms                           clock (before N: at start)
//   b 0|1 ms                       button level, then time passes, then the main loop runs
//   m mode | a                     the controller indicates a mode (0 uninitialised, 1 setup, 2 normal) or activity
//   c hex                          serial input
//   p n                            idle turns of the main loop
#include "kit.h"
#include "esp_shim.h"
#include <Controller.h>
#include <Configuration.h>
#include <Storage.h>
#include "LEDUserInterface.h"
#include "SerialUserInterface.h"
using namespace VLCB;

static int pinLevel[64];
static bool pressed = false;
static const int GREEN = 4, YELLOW = 7, BUTTON = 8;
static int pinModes[64];
void pinMode(int p, PinMode m) { pinModes[p & 63] = (int)m; }
void digitalWrite(int p, int v) { if (pinModes[p & 63] == (int)OUTPUT) pinLevel[p & 63] = v ? 1 : 0; }
// the button connects its pin to ground; without a pull-up an open pin reads low
byte digitalRead(int p) { return p == BUTTON ? (pressed || pinModes[BUTTON] != (int)INPUT_PULLUP ? LOW : HIGH) : pinLevel[p & 63]; }

static std::deque<char> input;
static bool Serial_available() { return !input.empty(); }
void Serial_T::begin(int) {}
bool Serial_T::available() { return Serial_available(); }
char Serial_T::read() { if (input.empty()) return -1; char c = input.front(); input.pop_front(); return c; }
void Serial_T::print(const char *s) { strlen(s); }
void Serial_T::println(const char *s) { strlen(s); }
void Serial_T::flush() {}
unsigned char Serial_T::readBytesUntil(int, char *, int) { return 0; }
void printConfig() {}

class Mem : public Storage
{
public:
  std::vector<byte> m = std::vector<byte>(8192, 0xff);
  long writes = 0;
  void begin() override {}
  byte read(unsigned a) override { return m.at(a); }
  byte readBytes(unsigned a, byte n, byte d[]) override { for (int i = 0; i < n; i++) d[i] = m.at(a + i); return n; }
  void write(unsigned a, byte v) override { ++writes; m.at(a) = v; }
  void writeBytes(unsigned a, const byte s[], byte n) override { for (int i = 0; i < n; i++) write(a + i, s[i]); }
  void reset() override { ++writes; std::fill(m.begin(), m.end(), 0xff); }
};
static Mem mem;
namespace VLCB { Storage *createDefaultStorageForPlatform() { return &mem; } Configuration config(&mem); }
static int reboots = 0, resets = 0;
void EspShim::restart() { ++reboots; }

static std::vector<int> acts;
class Capture : public Service
{
public:
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const Action *a) override
  {
    if (!a || a->actionType == ACT_INDICATE_MODE || a->actionType == ACT_INDICATE_ACTIVITY) return;
    acts.push_back(a->actionType == ACT_CHANGE_MODE ? 1 : a->actionType == ACT_RENEGOTIATE ? 2 : a->actionType == ACT_START_CAN_ENUMERATION ? 3 : 9);
  }
};
class Bus : public Transport
{
public:
  void reset() override { ++resets; }
  unsigned int receiveCounter() override { return 1; }
  unsigned int transmitCounter() override { return 2; }
  unsigned int receiveErrorCounter() override { return 3; }
  unsigned int transmitErrorCounter() override { return 4; }
  unsigned int errorStatus() override { return 5; }
};

void runTrace(const std::vector<std::string> &lines)
{
  g_millis = 1000;
  memset(pinLevel, -1, sizeof pinLevel);
  memset(pinModes, -1, sizeof pinModes);
  Controller *c = nullptr;
  Bus bus;
  Service *ui = nullptr;
  auto drain = [&] { for (int i = 0; i < 400; i++) { if (!c->pendingAction() && input.empty()) { c->process(); c->process(); if (!c->pendingAction()) return; } c->process(); } die("never idle"); };
  for (size_t i = 1; i < lines.size(); i++)
  {
    std::istringstream in(lines[i]);
    std::string op; in >> op;
    std::string a = "0"; unsigned ms = 0;
    acts.clear(); reboots = resets = 0;
    long w0 = mem.writes;
    if (op == "M") { in >> g_millis; continue; }
    if (op == "N")
    {
      std::string k; in >> k;
      if (k == "l") ui = new LEDUserInterface(GREEN, YELLOW, BUTTON);
      else
      {
        int nvs, maxev, evs; in >> nvs >> maxev >> evs;
        VLCB::config.EE_NUM_NVS = nvs; VLCB::config.EE_MAX_EVENTS = maxev; VLCB::config.EE_NUM_EVS = evs;
        ui = new SerialUserInterface(&bus);
      }
      c = new Controller(&VLCB::config, {ui, new Capture});
      if (k == "s")
      {
        VLCB::config.begin();
        for (int e = 0; e < VLCB::config.EE_MAX_EVENTS; e += 2)
        {
          byte d[4] = {(byte)(e + 1), 2, 3, (byte)e};
          VLCB::config.writeEvent(e, d);
          for (int v = 1; v <= VLCB::config.EE_NUM_EVS; v++) VLCB::config.writeEventEV(e, v, e ^ v);
          VLCB::config.updateEvHashEntry(e);
        }
      }
      w0 = mem.writes;
      a = k == "l" ? "0" : "1";
      reboots = 0;
    }
    else if (op == "b") { int l; in >> l >> ms; pressed = l; g_millis += ms; drain(); a = std::to_string(l); }
    else if (op == "m")
    {
      int m; in >> m;
      Action x = {ACT_INDICATE_MODE};
      x.mode = m == 0 ? MODE_UNINITIALISED : m == 1 ? MODE_SETUP : MODE_NORMAL;
      c->putAction(x); drain(); a = std::to_string(m);
    }
    else if (op == "a") { c->putAction(ACT_INDICATE_ACTIVITY); drain(); }
    else if (op == "o")
    {
      // a slow main loop: activity, one pass, ms later the next pass
      in >> ms;
      c->putAction(ACT_INDICATE_ACTIVITY); c->process(); a = std::to_string(pinLevel[GREEN]);
      g_millis += ms; drain();
    }
    else if (op == "p") { int n; in >> n; for (int k = 0; k < n; k++) c->process(); drain(); }
    else if (op == "c") { std::string h; in >> h; Bytes b = unhex(h); for (auto x : b) input.push_back((char)x); drain(); a = arr(b); }
    else die("bad script line");
    emitf("{\"t\":\"%s\",\"k\":\"%s\",\"a\":", traceId.c_str(), op.c_str());
    out += a + ",\"ms\":" + std::to_string(ms) + ",\"acts\":" + arr(acts);
    emitf(",\"y\":%d,\"g\":%d,\"rs\":%d,\"tr\":%d,\"sw\":%d}\n", pinLevel[YELLOW], pinLevel[GREEN], reboots, resets, mem.writes == w0 ? 0 : 1);
  }
}
