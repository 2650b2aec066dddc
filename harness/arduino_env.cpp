#include "arduino_env.h"
#include "esp_shim.h"
uint32_t g_millis = 0;
unsigned long millis() { return g_millis; }
void delay(unsigned int ms) { g_millis += ms; }
byte highByte(unsigned int i) { return i >> 8; }
byte lowByte(unsigned int i) { return i & 0xFF; }
unsigned int EspShim::getFreeHeap() { return 1000; }
EspShim ESP;
#ifndef VERIF_OWN_SERIAL
void Serial_T::begin(int) {}
bool Serial_T::available() { return false; }
char Serial_T::read() { return ' '; }
void Serial_T::print(const char *) {}
void Serial_T::println(const char *) {}
void Serial_T::flush() {}
#endif
Serial_T & operator<<(Serial_T & s, int) { return s; }
Serial_T & operator<<(Serial_T & s, unsigned int) { return s; }
#ifndef VERIF_LONG32
Serial_T & operator<<(Serial_T & s, long) { return s; }
Serial_T & operator<<(Serial_T & s, unsigned long) { return s; }
#endif
Serial_T & operator<<(Serial_T & s, const char *) { return s; }
Serial_T & operator<<(Serial_T & s, const ENDL_T &) { return s; }
ENDL_T endl;
Serial_T Serial;
#ifndef VERIF_NO_POISON
// fresh memory is dirty, as on the target
void * operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xA5, n); return p; }
void * operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xA5, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
