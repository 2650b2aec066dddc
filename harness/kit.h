// What the harnesses of single components share: a script on stdin, one process per trace, JSON records on stdout.
#pragma once
#include "arduino_env.h"

static std::string out;
static std::string traceId;
static void emitf(const char *fmt, ...) { char b[512]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); out += b; }
static void flushOut() { size_t o = 0; while (o < out.size()) { ssize_t n = write(1, out.data() + o, out.size() - o); if (n <= 0) _exit(9); o += n; } out.clear(); }
[[noreturn]] static void die(const char *msg) { fprintf(stderr, "fatal: %s\n", msg); flushOut(); _exit(3); }

typedef std::vector<unsigned char> Bytes;
static Bytes unhex(const std::string &s)
{
  Bytes b;
  if (s == "-") return b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((unsigned char)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
  return b;
}
template <class It> static std::string arr(It b, It e) { std::string s = "["; for (It i = b; i != e; ++i) { if (i != b) s += ','; s += std::to_string((int)*i); } return s + "]"; }
template <class C> static std::string arr(const C &c) { return arr(c.begin(), c.end()); }

void runTrace(const std::vector<std::string> &lines);

int main()
{
  std::vector<std::vector<std::string>> traces;
  std::string line;
  while (std::getline(std::cin, line))
  {
    if (line.empty()) continue;
    if (line[0] == 'T') traces.push_back({});
    traces.back().push_back(line);
  }
  int failed = 0;
  for (auto &t : traces)
  {
    if (failed >= 4) break;
    traceId = t[0].substr(2);
    pid_t pid = fork();
    if (pid < 0) return 4;
    if (pid == 0)
    {
      alarm(10);
      runTrace(t);
      flushOut();
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
    {
      ++failed;
      int why = WIFSIGNALED(status) ? WTERMSIG(status) : -WEXITSTATUS(status);
      emitf("{\"t\":\"%s\",\"k\":\"crash\",\"why\":%d}\n", traceId.c_str(), why);
      flushOut();
    }
  }
  return 0;
}
