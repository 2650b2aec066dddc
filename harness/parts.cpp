// Switch and LED objects, each on a pin of its own.
//   M ms              clock (before the first object)
//   N id s level | N id l   a new push button (pressed = level) or lamp
//   h id | f id       the button is held / free (also before the object exists)
//   p ms              time passes
//   r id              run;   R d: reset, resetCurrentDuration;   1 0 t b u: on, off, toggle, blink, pulse
#include "kit.h"
#include <map>
#include <Switch.h>
#include <LED.h>
using namespace VLCB;

static std::map<int, int> held, pressedLevel;
static int out_[64], modes[64];
void pinMode(int p, PinMode m) { modes[p & 63] = (int)m; }
void digitalWrite(int p, int v) { if (modes[p & 63] == (int)OUTPUT) out_[p & 63] = v ? 1 : 0; }
// a free button leaves its pin open: high with a pull-up, otherwise pulled down on the board
byte digitalRead(int p)
{
  int id = p - 10;
  if (held[id]) return pressedLevel[id] ? HIGH : LOW;
  return modes[p & 63] == (int)INPUT_PULLUP ? HIGH : LOW;
}

void runTrace(const std::vector<std::string> &lines)
{
  g_millis = 1000;
  memset(out_, -1, sizeof out_);
  memset(modes, -1, sizeof modes);
  std::map<int, std::unique_ptr<Switch>> sw;
  std::map<int, std::unique_ptr<LED>> led;
  emitf("{\"t\":\"%s\",\"k\":\"T\"}\n", traceId.c_str());
  for (size_t i = 1; i < lines.size(); i++)
  {
    std::istringstream in(lines[i]);
    std::string op; in >> op;
    int id = 0, ms = 0, ps = -1;
    if (op == "M") { in >> g_millis; continue; }
    if (op == "p") { in >> ms; g_millis += ms; }
    else in >> id;
    if (op == "N")
    {
      std::string k; in >> k;
      if (k == "s") { in >> ps; pressedLevel[id] = ps; sw[id].reset(ps ? new Switch(10 + id, HIGH) : new Switch(10 + id)); }
      else led[id].reset(new LED(10 + id));
    }
    else if (op == "h" || op == "f") held[id] = op == "h";
    else if (op == "p") ;
    else if (sw.count(id))
    {
      Switch &s = *sw[id];
      if (op == "r") s.run(); else if (op == "R") s.reset(); else if (op == "d") s.resetCurrentDuration(); else die("bad script line");
    }
    else
    {
      LED &d = *led.at(id);
      if (op == "r") d.run(); else if (op == "1") d.on(); else if (op == "0") d.off(); else if (op == "t") d.toggle();
      else if (op == "b") d.blink(); else if (op == "u") d.pulse(); else die("bad script line");
    }
    emitf("{\"t\":\"%s\",\"k\":\"%s\",\"o\":%d,\"ms\":%d,\"now\":%u,\"ps\":%d,\"hd\":%d,\"v\":[", traceId.c_str(), op.c_str(), id, ms, g_millis, ps, held[id]);
    const char *sep = "";
    for (auto &x : sw)
    {
      Switch &s = *x.second;
      emitf("%s[%d,%d,%d,%d,%lu,%lu,%lu]", sep, x.first, s.getState(), s.isPressed(), s.stateChanged(), s.getCurrentStateDuration(), s.getLastStateDuration(), s.getLastStateChangeTime());
      sep = ",";
    }
    for (auto &x : led) { emitf("%s[%d,%d,%d]", sep, x.first, x.second->getState(), out_[10 + x.first]); sep = ","; }
    emitf("]}\n");
  }
}
