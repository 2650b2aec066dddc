// GridConnect text and the serial transport.
//   N                       a new transport
//   E id ext rtr len hex    encode a frame
//   D hex                   decode a text
//   R hex                   bytes arrive on the serial line
//   X id ext rtr len hex    send a frame
//   Z                       transport reset
#include "kit.h"
#include <GridConnect.h>
#include <SerialGC.h>
using namespace VLCB;

static std::deque<char> input;
static std::string printed;
void Serial_T::begin(int) {}
bool Serial_T::available() { return !input.empty(); }
char Serial_T::read() { if (input.empty()) return -1; char c = input.front(); input.pop_front(); return c; }
void Serial_T::print(const char *s) { printed += s; }
void Serial_T::println(const char *s) { printed += s; printed += '\n'; }
void Serial_T::flush() {}
unsigned char Serial_T::readBytesUntil(int, char *, int) { return 0; }
void pinMode(int, PinMode) {}
void digitalWrite(int, int) {}
byte digitalRead(int) { return 0; }

static std::string frameJson(const CANFrame &f)
{
  std::string s = "{\"id\":" + std::to_string(std::min<uint32_t>(f.id, 0x40000000)) + ",\"x\":" + std::to_string(f.ext ? 1 : 0) + ",\"r\":" + std::to_string(f.rtr ? 1 : 0) + ",\"n\":" + std::to_string((int)f.len);
  return s + ",\"d\":" + arr(f.data, f.data + std::min<int>(f.len, 8)) + "}";
}
static CANFrame *readFrame(std::istringstream &in)
{
  unsigned long id; int x, r, n; std::string h; in >> id >> x >> r >> n >> h;
  CANFrame *f = new CANFrame;
  f->id = (uint32_t)id; f->ext = x; f->rtr = r; f->len = n;
  Bytes b = unhex(h);
  for (size_t i = 0; i < 8; i++) f->data[i] = i < b.size() ? b[i] : 0x5A;
  return f;
}
static std::string codes(const std::string &s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return arr(v); }

void runTrace(const std::vector<std::string> &lines)
{
  SerialGC *gc = nullptr;
  for (size_t i = 1; i < lines.size(); i++)
  {
    std::istringstream in(lines[i]);
    std::string op; in >> op;
    std::string extra = "\"a\":[]";
    int ok = -1;
    printed.clear();
    std::string frames = "[";
    if (op == "N") { gc = new SerialGC(Serial); gc->begin(); printed.clear(); }
    else if (op == "E")
    {
      CANFrame *f = readFrame(in);
      bool valid = f->len <= 8 && f->id <= (f->ext ? 0x1FFFFFFFu : 0x7FFu);
      size_t room = valid ? (f->ext ? 13 : 9) + 2 * f->len : 30;
      char *buf = (char *)malloc(room);
      memset(buf, 'z', room);
      ok = encodeGridConnect(buf, f) ? 1 : 0;
      extra = "\"a\":[],\"f\":" + frameJson(*f) + ",\"txt\":" + (ok ? codes(std::string(buf, strnlen(buf, room))) : "[]");
      free(buf); delete f;
    }
    else if (op == "D")
    {
      std::string h; in >> h;
      Bytes b = unhex(h);
      char *t = (char *)malloc(b.size() + 1);
      memcpy(t, b.data(), b.size()); t[b.size()] = 0;
      CANFrame *f = new CANFrame;
      ok = decodeGridConnect(t, f) ? 1 : 0;
      extra = "\"a\":" + arr(b) + ",\"f\":" + (ok ? frameJson(*f) : "0");
      free(t); delete f;
    }
    else if (op == "R")
    {
      std::string h; in >> h;
      Bytes b = unhex(h);
      for (auto c : b) input.push_back((char)c);
      bool first = true;
      for (size_t guard = 0; guard < 4 * b.size() + 40; guard++)
      {
        if (gc->available())
        {
          CANFrame f = gc->getNextCanFrame();
          if (!first) frames += ',';
          first = false;
          frames += frameJson(f);
        }
        else if (input.empty()) break;
      }
      extra = "\"a\":" + arr(b);
    }
    else if (op == "X") { CANFrame *f = readFrame(in); ok = gc->sendCanFrame(f) ? 1 : 0; extra = "\"a\":[],\"f\":" + frameJson(*f) + ",\"txt\":" + codes(printed); delete f; }
    else if (op == "Z") { gc->reset(); }
    else die("bad script line");
    out += "{\"t\":\"" + traceId + "\",\"k\":\"" + op + "\"," + extra + ",\"ok\":" + std::to_string(ok) + ",\"rx\":" + frames + "]";
    if (gc) emitf(",\"c\":[%u,%u,%u,%u]}\n", gc->receiveCounter(), gc->transmitCounter(), gc->receiveErrorCounter(), gc->transmitErrorCounter());
    else out += ",\"c\":[0,0,0,0]}\n";
  }
}
