// A module on a simulated bus, storage and clock, for the demonstrations.
#pragma once
#include <Arduino.h>
#include <Streaming.h>
#include <Wire.h>
#include <SPI.h>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include "Controller.h"
#include "Configuration.h"
#include "Parameters.h"
#include "Storage.h"
#include "CanTransport.h"
#include "CanService.h"
#include "CanServiceWithDiagnostics.h"
#include "MinimumNodeServiceWithDiagnostics.h"
#include "NodeVariableService.h"
#include "EventTeachingServiceWithDiagnostics.h"
#include "EventConsumerServiceWithDiagnostics.h"
#include "EventProducerServiceWithDiagnostics.h"
#include "ConsumeOwnEventsService.h"
#include "VlcbCommon.h"

unsigned long now = 0;
unsigned long millis() { return now; }
unsigned long micros() { return now * 1000; }
void delay(unsigned int ms) { now += ms; }
byte highByte(unsigned int i) { return i >> 8; }
byte lowByte(unsigned int i) { return i & 0xFF; }
void pinMode(int, PinMode) {}
std::map<int, int> pins, inputs;
void digitalWrite(int p, int v) { pins[p] = v; }
byte digitalRead(int p) { return inputs.count(p) ? inputs[p] : 1; }
void analogWrite(int, int) {}
int analogRead(int) { return 0; }
std::deque<char> serialIn;
std::string serialOut;
void printConfig() {}
Serial_T Serial;
void Serial_T::begin(int) {}
bool Serial_T::available() { return !serialIn.empty(); }
char Serial_T::read() { char c = serialIn.front(); serialIn.pop_front(); return c; }
void Serial_T::flush() {}
unsigned char Serial_T::readBytesUntil(int t, char *s, int n) { int i = 0; while (i < n && !serialIn.empty()) { char c = read(); if (c == t) break; s[i++] = c; } return i; }
void Serial_T::print(const char *s) { serialOut += s; }
void Serial_T::println(const char *s) { serialOut += s; serialOut += "\r\n"; }
Serial_T &operator<<(Serial_T &s, const char *) { return s; }
Serial_T &operator<<(Serial_T &s, int) { return s; }
Serial_T &operator<<(Serial_T &s, unsigned int) { return s; }
Serial_T &operator<<(Serial_T &s, long) { return s; }
Serial_T &operator<<(Serial_T &s, unsigned long) { return s; }
Serial_T &operator<<(Serial_T &s, ENDL_T const &) { return s; }
ENDL_T endl;
namespace VLCB { Configuration config(nullptr); Storage *createDefaultStorageForPlatform() { return nullptr; } }

struct PowerCut {};
struct Store : VLCB::Storage
{
  std::vector<byte> d = std::vector<byte>(8192, 0xFF);
  int left = -1;      // single-byte writes until the power fails
  void w(unsigned a, byte v) { if (left == 0) throw PowerCut(); if (left > 0) left--; if (a >= d.size()) { printf("write outside the storage\n"); exit(1); } d[a] = v; }
  void begin() override {}
  byte read(unsigned a) override { return d.at(a); }
  void write(unsigned a, byte v) override { w(a, v); }
  byte readBytes(unsigned a, byte n, byte t[]) override { for (int i = 0; i < n; i++) t[i] = d.at(a + i); return n; }
  void writeBytes(unsigned a, const byte s[], byte n) override { for (int i = 0; i < n; i++) w(a + i, s[i]); }
  void reset() override { for (unsigned a = 10; a < 4096; a++) d[a] = 0xFF; }
};
struct Can : VLCB::CanTransport
{
  std::deque<VLCB::CANFrame> in;
  std::vector<VLCB::CANFrame> out;
  bool available() override { return !in.empty(); }
  VLCB::CANFrame getNextCanFrame() override { auto f = in.front(); in.pop_front(); return f; }
  bool sendCanFrame(VLCB::CANFrame *f) override { out.push_back(*f); return true; }
  void reset() override {}
  unsigned int receiveCounter() override { return 11; }
  unsigned int transmitCounter() override { return 22; }
  unsigned int receiveErrorCounter() override { return 33; }
  unsigned int transmitErrorCounter() override { return 44; }
  unsigned int errorStatus() override { return 0; }
};
using Msg = std::vector<int>;
struct Call { int index; Msg m; };
static std::vector<Call> consumed, requested;
static Msg bytes(const VLCB::VlcbMessage *m) { return Msg(m->data, m->data + m->len); }
static void onEvent(byte i, const VLCB::VlcbMessage *m) { consumed.push_back({i, bytes(m)}); }
static void onRequest(byte i, const VLCB::VlcbMessage *m) { requested.push_back({i, bytes(m)}); }

struct Probe : VLCB::Service      // lets the demonstration inject actions and see what happens inside the module
{
  std::vector<VLCB::Action> todo, seen;
  VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; }
  byte getServiceVersionID() const override { return 1; }
  void process(const VLCB::Action *a) override { if (a && a->actionType != VLCB::ACT_MESSAGE_IN) seen.push_back(*a); }
};
struct Module
{
  Store &st;
  Can can;
  int nvs = 4, maxev = 10, evs = 3, prod = 0;
  bool own = false, reqs = true;
  VLCB::Configuration *conf = nullptr;
  VLCB::MinimumNodeServiceWithDiagnostics *mns;
  VLCB::CanServiceWithDiagnostics *cs;
  VLCB::NodeVariableService *nvsvc;
  VLCB::EventTeachingServiceWithDiagnostics *ets;
  VLCB::EventConsumerServiceWithDiagnostics *ecs;
  VLCB::EventProducerServiceWithDiagnostics *eps;
  VLCB::ConsumeOwnEventsService *coe;
  Probe *probe;
  VLCB::Controller *c = nullptr;
  explicit Module(Store &s) : st(s) {}
  Module &boot()
  {
    conf = new VLCB::Configuration(&st);
    conf->EE_NUM_NVS = nvs; conf->EE_MAX_EVENTS = maxev; conf->EE_NUM_EVS = evs; conf->EE_PRODUCED_EVENTS = prod;
    mns = new VLCB::MinimumNodeServiceWithDiagnostics; cs = new VLCB::CanServiceWithDiagnostics(&can); nvsvc = new VLCB::NodeVariableService;
    ets = new VLCB::EventTeachingServiceWithDiagnostics; ecs = new VLCB::EventConsumerServiceWithDiagnostics; eps = new VLCB::EventProducerServiceWithDiagnostics;
    coe = new VLCB::ConsumeOwnEventsService; probe = new Probe;
    if (own) c = new VLCB::Controller(conf, {mns, cs, nvsvc, coe, ecs, eps, ets, probe});
    else c = new VLCB::Controller(conf, {mns, cs, nvsvc, ecs, eps, ets, probe});
    auto *p = new VLCB::Parameters(*conf);
    p->setVersion(1, 'a', 0);
    p->setModuleId(99);
    c->setParams(p->getParams());
    static unsigned char name[8] = {'D', 'E', 'M', 'O', ' ', ' ', ' ', 0};
    c->setName(name);
    ecs->setEventHandler(onEvent);
    if (reqs) eps->setRequestEventHandler(onRequest);
    c->begin();
    return *this;
  }
  // a module that is Normal, with the given node number and CANID
  Module &normal(unsigned nn, int canid = 7)
  {
    st.d[0] = 1; st.d[1] = canid; st.d[2] = nn >> 8; st.d[3] = nn; st.d[4] = 0; st.d[5] = 0;
    return boot();
  }
  void run() { for (int i = 0; i < 400; i++) c->process(); }
  void frame(unsigned id, bool ext, bool rtr, Msg d) { VLCB::CANFrame f = {}; f.id = id; f.ext = ext; f.rtr = rtr; f.len = d.size(); for (size_t i = 0; i < d.size(); i++) f.data[i] = d[i]; can.in.push_back(f); }
  // sends a message to the module and returns the messages it answers with
  std::vector<Msg> ask(Msg d, int from = 100) { can.out.clear(); frame(0x580 + from, false, false, d); run(); return sent(); }
  std::vector<Msg> act(VLCB::Action a) { can.out.clear(); c->putAction(a); run(); return sent(); }
  std::vector<Msg> sent() { std::vector<Msg> r; for (auto &f : can.out) if (f.len) r.push_back(Msg(f.data, f.data + f.len)); return r; }
  std::vector<Msg> wait(unsigned ms) { can.out.clear(); now += ms; run(); return sent(); }
  int hi() { return conf->nodeNum >> 8; }
  int lo() { return conf->nodeNum & 255; }
  void learn(bool on = true) { ask({on ? 0x53 : 0x54, hi(), lo()}); }
  void teach(int nn, int en, int ev, int val) { ask({0xD2, nn >> 8, nn & 255, en >> 8, en & 255, ev, val}); }
  // events as the module lists them: index -> {nn, en}
  std::map<int, std::pair<int, int>> table() { std::map<int, std::pair<int, int>> r; for (auto &m : ask({0x57, hi(), lo()})) if (m[0] == 0xF2) r[m[7]] = {m[3] * 256 + m[4], m[5] * 256 + m[6]}; return r; }
  int evByIndex(int idx, int ev) { auto r = ask({0x9C, hi(), lo(), idx, ev}); return r.size() == 1 && r[0][0] == 0xB5 ? r[0][5] : -1; }
  int nv(int i) { auto r = ask({0x71, hi(), lo(), i}); return r.size() == 1 && r[0][0] == 0x97 ? r[0][4] : -1; }
};
static int failures = 0;
static std::string show(const std::vector<Msg> &v) { std::string s; char b[8]; for (auto &m : v) { s += "["; for (int x : m) { snprintf(b, 8, "%02X ", x); s += b; } s += "]"; } return s; }
#define CHECK(c) do { if (!(c)) { printf("line %d: not so: %s\n", __LINE__, #c); failures++; } } while (0)
#define SAME(got, ...) do { std::vector<Msg> g_ = got, w_ = __VA_ARGS__; if (g_ != w_) { printf("line %d: got %s, expected %s\n", __LINE__, show(g_).c_str(), show(w_).c_str()); failures++; } } while (0)
#define DONE return failures ? 1 : 0
