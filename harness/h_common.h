// Common server loop of the harnesses: reads a case (lines up to ENDCASE) from stdin, executes
// it in a forked child, and writes the observation lines followed by ENDOBS.
#ifndef H_COMMON_H_
#define H_COMMON_H_
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "error.h"

namespace h {

typedef std::vector<std::string> Toks;
typedef std::vector<Toks> Case;

static FILE* obs = NULL;

inline Toks Split(const std::string& s) {
  Toks t;
  std::istringstream is(s);
  std::string x;
  while (is >> x) t.push_back(x);
  return t;
}

inline double D(const std::string& s) { return strtod(s.c_str(), NULL); }
inline int I(const std::string& s) { return (int)strtoll(s.c_str(), NULL, 10); }
inline long long LL(const std::string& s) { return strtoll(s.c_str(), NULL, 10); }

inline std::string UnHex(const std::string& s) {
  if (s == "-") return "";
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    o.push_back((char)strtol(s.substr(i, 2).c_str(), NULL, 16));
  return o;
}
inline std::string Hex(const std::string& s) {
  if (s.empty()) return "-";
  static const char* d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    o.push_back(d[(unsigned char)s[i] >> 4]);
    o.push_back(d[(unsigned char)s[i] & 15]);
  }
  return o;
}
inline std::string F(double x) {
  char b[64];
  if (x != x) return "nan";
  snprintf(b, sizeof b, "%a", x);
  return b;
}

inline void Out(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void Out(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfprintf(obs, fmt, ap);
  va_end(ap);
  fputc('\n', obs);
}
inline void OutS(const std::string& s) {
  fputs(s.c_str(), obs);
  fputc('\n', obs);
}

// name of the exception class, for observations
inline std::string ErrName(const std::exception& e) {
  if (dynamic_cast<const cyclus::ValueError*>(&e)) return "ValueError";
  if (dynamic_cast<const cyclus::KeyError*>(&e)) return "KeyError";
  if (dynamic_cast<const cyclus::StateError*>(&e)) return "StateError";
  if (dynamic_cast<const cyclus::IOError*>(&e)) return "IOError";
  if (dynamic_cast<const cyclus::CastError*>(&e)) return "CastError";
  if (dynamic_cast<const cyclus::ValidationError*>(&e)) return "ValidationError";
  if (dynamic_cast<const cyclus::Error*>(&e)) return "Error";
  return "std";
}

// a mistake in the case text or in the harness itself, not in the code under test
struct Bad {
  std::string m;
  explicit Bad(const std::string& x) : m(x) {}
};

typedef void (*Runner)(const Case&);

inline int Serve(Runner run, int timeout_s = 20) {
  signal(SIGPIPE, SIG_IGN);
  std::string line;
  Case c;
  char* lim = getenv("VERIF_CASE_TIMEOUT");
  if (lim) timeout_s = atoi(lim);
  bool nofork = getenv("VERIF_NOFORK") != NULL;
  while (std::getline(std::cin, line)) {
    if (line != "ENDCASE") {
      Toks t = Split(line);
      if (!t.empty()) c.push_back(t);
      continue;
    }
    if (nofork) {
      obs = stdout;
      run(c);
      c.clear();
      continue;
    }
    int fd[2];
    if (pipe(fd)) { printf("ENDOBS harness pipe\n"); fflush(stdout); return 1; }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { printf("ENDOBS harness fork\n"); fflush(stdout); return 1; }
    if (pid == 0) {
      close(fd[0]);
      obs = fdopen(fd[1], "w");
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 0);
      dup2(nul, 1);
      dup2(nul, 2);
      struct rlimit rl;
      rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30;
      setrlimit(RLIMIT_AS, &rl);
      rl.rlim_cur = rl.rlim_max = timeout_s;  // CPU seconds: independent of the machine's load
      setrlimit(RLIMIT_CPU, &rl);
      alarm(timeout_s * 10);
      int rc = 0;
      try {
        run(c);
      } catch (const Bad& e) {
        Out("BAD %s", e.m.c_str());
        rc = 99;
      } catch (const std::exception& e) {
        Out("UNCAUGHT %s %s", ErrName(e).c_str(), Hex(e.what()).c_str());
        rc = 98;
      }
      fflush(obs);
      _exit(rc);
    }
    close(fd[1]);
    char buf[65536];
    ssize_t k;
    bool nl = true;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) {
      fwrite(buf, 1, k, stdout);
      nl = buf[k - 1] == '\n';
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!nl) printf("\n");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("ENDOBS ok\n");
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) printf("ENDOBS harness case\n");
    else if (WIFEXITED(st)) printf("ENDOBS exit %d\n", WEXITSTATUS(st));
    else printf("ENDOBS signal %d\n", WTERMSIG(st));
    fflush(stdout);
    c.clear();
  }
  return 0;
}

}  // namespace h
#endif
