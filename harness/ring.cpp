// CircularBuffer: one operation per script line.
//   N capacity | p value | g | k | c
#include "kit.h"
#include <CircularBuffer.h>

struct Entry
{
  uint32_t v; unsigned char pad[20]; std::string s;
  Entry() : v(0xDEAD) { memset(pad, 0xEE, sizeof pad); }
  explicit Entry(uint32_t x) : v(x), s("entry number " + std::to_string(x)) { memset(pad, x & 0xFF, sizeof pad); }
  long value() const
  {
    for (auto c : pad) if (c != (v & 0xFF)) return -2;
    return s == "entry number " + std::to_string(v) ? (long)v : -3;
  }
};

void runTrace(const std::vector<std::string> &lines)
{
  std::unique_ptr<VLCB::CircularBuffer<Entry>> r;
  for (size_t i = 1; i < lines.size(); i++)
  {
    std::istringstream in(lines[i]);
    std::string op; in >> op;
    long v = -1;
    if (op == "N") { int c; in >> c; r.reset(new VLCB::CircularBuffer<Entry>(c)); v = c; }
    else if (op == "p") { in >> v; r->put(Entry(v)); }
    else if (op == "g") { if (!r->available()) continue; v = r->pop().value(); }
    else if (op == "k") { Entry *e = r->peek(); v = e ? e->value() : -1; }
    else if (op == "c") r->clear();
    else die("bad script line");
    bool av = r->available();
    Entry *e = r->peek();
    emitf("{\"t\":\"%s\",\"k\":\"%s\",\"v\":%d,\"av\":%d,\"pk\":%d,\"st\":[%u,%u,%u,%u]}\n", traceId.c_str(), op.c_str(), (int)v, av ? 1 : 0,
          e ? (int)e->value() : -1, (unsigned)r->getNumberOfPuts(), (unsigned)r->getNumberOfGets(), (unsigned)r->getOverflows(), (unsigned)r->getHighWaterMark());
  }
}
