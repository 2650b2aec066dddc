// The storage backends against simulated devices.  Device contents live in shared memory; a restart is a new process.
//   N int|rp|ext|flash|due     a factory fresh device, started
//   W a v / w a hex            write a byte / bytes
//   r a / R a n                read a byte / bytes
//   Z                          reset
//   X                          restart
// Every record lists what changed, as read through the storage interface at all addresses.
#include "kit.h"
#include <sys/mman.h>
#include <Wire.h>
#include <EepromInternalStorage.h>
#include <EepromExternalStorage.h>
#include "dev/Flash.h"
#include "dev/DueFlashStorage.h"
#include "rp/EEPROM.h"
namespace VLCB { Storage *storageInt(); Storage *storageRp(); Storage *storageFlash(); Storage *storageDue(); }
using namespace VLCB;

static const unsigned MAXSIZE = 8192;
struct Shared { byte mem[MAXSIZE], last[MAXSIZE]; uint32_t now; };
static Shared *sh;
static unsigned size = 4096;
static int misuse = 0;
void pinMode(int, PinMode) {}
void digitalWrite(int, int) {}
byte digitalRead(int) { return 0; }
unsigned char Serial_T::readBytesUntil(int, char *, int) { return 0; }

// --- plain EEPROM (the object EEPROM is defined by the library's test header)
struct EEPROM_T { byte read(unsigned int a); void write(unsigned int a, byte v); };
byte EEPROM_T::read(unsigned int a) { return a < size ? sh->mem[a] : 255; }
void EEPROM_T::write(unsigned int a, byte v) { if (a < size) sh->mem[a] = v; }

// --- RP2040 emulation
EepromRpSim eepromRpSim;
static byte ram[MAXSIZE]; static unsigned ramSize = 0;
void EepromRpSim::begin(unsigned n) { ramSize = std::min(n, 4096u); memcpy(ram, sh->mem, ramSize); }
byte EepromRpSim::read(unsigned a) { return a < ramSize ? ram[a] : 0; }
void EepromRpSim::write(unsigned a, byte v) { if (a < ramSize) ram[a] = v; }
bool EepromRpSim::commit() { memcpy(sh->mem, ram, ramSize); return true; }
bool EepromRpSim::end() { commit(); ramSize = 0; return true; }
unsigned EepromRpSim::length() { return ramSize; }

// --- I2C EEPROM: 64 byte pages, 32 byte Wire buffer, busy for 5 ms after a write
TwoWire Wire;
static const int I2CADDR = 0x50;
static bool started = false; static int target = -1; static Bytes txb; static std::deque<byte> rxb; static unsigned ptr_ = 0; static uint32_t busyUntil = 0;
void TwoWire::begin() { started = true; }
void TwoWire::beginTransmission(byte a) { target = a; txb.clear(); }
void TwoWire::write(int i) { if (txb.size() < 32) txb.push_back((byte)i); else ++misuse; }
static bool ready() { if (!started || target != I2CADDR) { ++misuse; return false; } if ((int32_t)(busyUntil - g_millis) > 0) { ++g_millis; return false; } return true; }
byte TwoWire::endTransmission()
{
  if (!ready()) return 2;
  if (txb.size() == 1) ++misuse;
  if (txb.size() >= 2)
  {
    ptr_ = ((txb[0] << 8) | txb[1]) % size;
    for (size_t i = 2; i < txb.size(); i++) { sh->mem[ptr_] = txb[i]; ptr_ = (ptr_ & ~63u) | ((ptr_ + 1) & 63u); }
    if (txb.size() > 2) busyUntil = g_millis + 5;
  }
  return 0;
}
void TwoWire::requestFrom(int a, int n)
{
  rxb.clear(); target = a;
  if (!ready()) return;
  if (n > 32) { ++misuse; n = 32; }
  while (n-- > 0) { rxb.push_back(sh->mem[ptr_]); ptr_ = (ptr_ + 1) % size; }
}
byte TwoWire::read() { if (rxb.empty()) return 255; byte b = rxb.front(); rxb.pop_front(); return b; }
bool TwoWire::available() { return !rxb.empty(); }

// --- flash: the last 2048 bytes hold data, all before is the program; a write can only clear bits
FlashSim Flash;
static const uint32_t AREA = PROGMEM_SIZE - 2048;
static bool in(uint32_t a) { if (a < AREA || a >= PROGMEM_SIZE) { ++misuse; return false; } return true; }
byte FlashSim::checkWritable() { return FLASHWRITE_OK; }
byte FlashSim::readByte(uint32_t a) { return a >= AREA && a < PROGMEM_SIZE ? sh->mem[a - AREA] : 0x0C; }
uint16_t FlashSim::readWord(uint32_t a) { return readByte(a) | (readByte(a + 1) << 8); }
byte FlashSim::erasePage(uint32_t a, byte n) { for (uint32_t b = a & ~511u; b < (a & ~511u) + 512u * std::max<byte>(n, 1); b++) if (in(b)) sh->mem[b - AREA] = 255; return FLASHWRITE_OK; }
byte FlashSim::writeByte(uint32_t a, byte v) { if (!in(a)) return FLASHWRITE_FAIL; sh->mem[a - AREA] &= v; return FLASHWRITE_OK; }
byte FlashSim::writeWord(uint32_t a, uint16_t v) { writeByte(a, v & 255); return writeByte(a + 1, v >> 8); }
byte FlashSim::writeBytes(uint32_t a, const byte *d, uint16_t n) { byte r = 0; for (uint16_t i = 0; i < n; i++) r |= writeByte(a + i, d[i]); return r; }

// --- Due
byte DueFlashStorage::read(uint32_t a) { return a < size ? sh->mem[a] : 255; }
byte *DueFlashStorage::readAddress(uint32_t a) { return sh->mem + a; }
bool DueFlashStorage::write(uint32_t a, byte v) { return write(a, &v, 1); }
bool DueFlashStorage::write(uint32_t a, byte *d, uint32_t n) { if (a + n > size) { ++misuse; return false; } memcpy(sh->mem + a, d, n); return true; }
bool DueFlashStorage::write_unlocked(uint32_t a, byte v) { return write(a, &v, 1); }
bool DueFlashStorage::write_unlocked(uint32_t a, byte *d, uint32_t n) { return write(a, d, n); }

static std::string kind;
static void segment(std::vector<std::string>::const_iterator b, std::vector<std::string>::const_iterator e, bool fresh)
{
  Storage *s = kind == "int" ? storageInt() : kind == "rp" ? storageRp() : kind == "flash" ? storageFlash() : kind == "due" ? storageDue() : new EepromExternalStorage(I2CADDR);
  g_millis = sh->now;
  s->begin();
  auto record = [&](const std::string &op, const std::string &a)
  {
    std::string ch = "[";
    byte *now = new byte[size];
    for (unsigned i = 0; i < size; i++)
      if ((now[i] = s->read(i)) != sh->last[i]) ch += (ch.size() > 1 ? ",[" : "[") + std::to_string(i) + "," + std::to_string((int)now[i]) + "]";
    memcpy(sh->last, now, size);
    delete[] now;
    out += "{\"t\":\"" + traceId + "\",\"k\":\"" + op + "\"," + a + ",\"ch\":" + ch + "],\"bad\":" + std::to_string(misuse) + "}\n";
    misuse = 0;
  };
  if (fresh) record("N", "\"size\":" + std::to_string(size)); else record("X", "\"size\":" + std::to_string(size));
  for (; b != e; ++b)
  {
    std::istringstream is(*b);
    std::string op; unsigned a = 0, v = 0; is >> op >> a;
    std::string args = "\"a\":" + std::to_string(a);
    if (op == "W") { is >> v; s->write(a, v); args += ",\"d\":[" + std::to_string(v) + "]"; }
    else if (op == "w")
    {
      std::string h; is >> h; Bytes d = unhex(h);
      byte *p = (byte *)malloc(d.size()); memcpy(p, d.data(), d.size());
      s->writeBytes(a, p, d.size()); free(p);
      args += ",\"d\":" + arr(d);
    }
    else if (op == "r") { byte x = s->read(a); args += ",\"n\":1,\"got\":[" + std::to_string((int)x) + "]"; }
    else if (op == "R")
    {
      is >> v;
      byte *p = (byte *)malloc(v);
      byte n = s->readBytes(a, v, p);
      args += ",\"n\":" + std::to_string(v) + ",\"got\":" + arr(p, p + std::min<unsigned>(n, v));
      free(p);
    }
    else if (op == "Z") s->reset();
    else die("bad script line");
    record(op, args);
  }
  sh->now = g_millis + 1000;
}

void runTrace(const std::vector<std::string> &lines)
{
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(sh->mem, 255, MAXSIZE); memset(sh->last, 255, MAXSIZE); sh->now = 7;
  kind = lines.at(1).substr(2);
  size = kind == "flash" ? 2048 : kind == "ext" ? 8192 : 4096;
  auto b = lines.begin() + 2;
  for (bool fresh = true; ; fresh = false)
  {
    auto e = std::find(b, lines.end(), std::string("X"));
    pid_t pid = fork();
    if (pid < 0) _exit(4);
    if (pid == 0) { alarm(10); segment(b, e, fresh); flushOut(); _exit(0); }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st));
    if (e == lines.end()) break;
    b = e + 1;
  }
}
