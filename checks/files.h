// Shared by the harnesses of the file formats: scratch files, children that may exit or crash.
#pragma once
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <setjmp.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "mc.h"

namespace files {
inline std::string path(const std::string &name = "f") { return mc::scratch() + "/" + name; }
inline void put(const std::string &name, const std::string &bytes) {
  const int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  size_t o = 0;
  while (fd >= 0 && o < bytes.size()) {
    const ssize_t k = write(fd, bytes.data() + o, bytes.size() - o);
    if (k <= 0) break;
    o += static_cast<size_t>(k);
  }
  MC_CHECK(fd >= 0 && o == bytes.size(), "cannot write the scratch file " + name);
  close(fd);
}
inline std::string get(const std::string &name) {
  std::ifstream in(name, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}

// What became of a child: `done` with the text it returned, a clean exit, or a crash.
struct Outcome {
  bool done = false;
  int code = -1, signal = 0;
  std::string text; // returned text if done, else what was written to stdout and stderr
  std::string all;  // everything written before exit()
  bool clean() const { return !done && signal == 0 && code != 0 && code < 64; }
  std::string str() const {
    if (done) return "accepted: " + text.substr(0, 200);
    if (signal == SIGVTALRM || signal == SIGALRM) return "it did not finish within 5 s of CPU time";
    if (signal) return "killed by signal " + std::to_string(signal) + " " + text.substr(0, 300);
    if (code == 99) return "memory error: " + text.substr(0, 700);
    if (code == 98) return "uncaught exception " + text.substr(0, 200);
    return "exit code " + std::to_string(code) + " " + text.substr(0, 200);
  }
};
// std::exit() in the code under test ends only the case at hand: children replace it by a jump.
inline jmp_buf *exit_to = nullptr;
inline int exit_code = 0;

// Runs f(0), ..., f(n-1) in child processes, because the code under test may call std::exit or crash;
// after a crash, the next child goes on with the next index.
inline std::vector<Outcome> children(const int n, const std::function<std::string(int)> &f) {
  std::vector<Outcome> all;
  while (static_cast<int>(all.size()) < n) {
    int p[2];
    const int log = memfd_create("log", 0);
    fflush(stdout), fflush(stderr);
    if (pipe(p) || log < 0) mc::fail("pipe");
    const int first = static_cast<int>(all.size()), last = std::min(n, first + 2000);
    const pid_t pid = fork();
    if (pid == 0) {
      for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGALRM}) signal(s, SIG_DFL);
      sigset_t none;
      sigemptyset(&none);
      sigprocmask(SIG_SETMASK, &none, nullptr);
      const rlimit core{0, 0}, fds{8192, 8192};
      setrlimit(RLIMIT_CORE, &core);
      setrlimit(RLIMIT_NOFILE, &fds);
      close(p[0]);
      dup2(log, 1), dup2(log, 2);
      auto send = [&](char tag, int code, std::string r) {
        const int32_t head[2] = {static_cast<int32_t>(r.size()), code * 256 + tag};
        r.insert(0, reinterpret_cast<const char *>(head), 8);
        size_t at = 0;
        while (at < r.size()) {
          const ssize_t k = write(p[1], r.data() + at, r.size() - at);
          if (k <= 0) break;
          at += static_cast<size_t>(k);
        }
      };
      for (volatile int i = first; i < last; i = i + 1) {
        const itimerval t{{0, 0}, {5, 0}};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
        fflush(stdout), fflush(stderr);
        if (ftruncate(log, 0)) {}
        lseek(log, 0, SEEK_SET);
        jmp_buf here;
        exit_to = &here;
        if (setjmp(here) == 0) {
          try {
            const std::string r = f(i);
            exit_to = nullptr;
            send('d', 0, r);
          } catch (const std::exception &e) {
            exit_to = nullptr;
            send('e', 98, e.what());
          }
        } else {
          exit_to = nullptr;
          fflush(stdout), fflush(stderr);
          std::cout.flush();
          static char buf[1 << 16];
          const ssize_t k = pread(log, buf, sizeof buf, 0);
          send('x', exit_code, std::string(buf, k > 0 ? static_cast<size_t>(k) : 0));
        }
      }
      _exit(97);
    }
    close(p[1]);
    std::string ret;
    static char buf[65536];
    for (ssize_t k; (k = read(p[0], buf, sizeof buf)) != 0;)
      if (k > 0) ret.append(buf, static_cast<size_t>(k));
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    for (size_t at = 0; at + 8 <= ret.size();) {
      int32_t head[2];
      memcpy(head, ret.data() + at, 8);
      if (at + 8 + static_cast<size_t>(head[0]) > ret.size()) break;
      Outcome o;
      o.done = (head[1] & 255) == 'd', o.code = head[1] / 256, o.all = ret.substr(at + 8, static_cast<size_t>(head[0])), o.text = o.done ? o.all : o.all.substr(0, 400);
      all.push_back(o);
      at += 8 + static_cast<size_t>(head[0]);
    }
    std::string err(8192, 0);
    const ssize_t k = pread(log, err.data(), err.size(), 0);
    err.resize(k > 0 ? static_cast<size_t>(k) : 0);
    close(log);
    if (static_cast<int>(all.size()) == last) continue;
    Outcome o;
    if (WIFSIGNALED(st)) o.signal = WTERMSIG(st);
    else o.code = WEXITSTATUS(st);
    const size_t at = err.find("ERROR: ");
    o.text = at == std::string::npos ? err.substr(0, 800) : err.substr(at, 800);
    all.push_back(o);
  }
  return all;
}
inline Outcome child(const std::function<std::string()> &f) {
  return children(1, [&](int) { return f(); })[0];
}
} // namespace files
extern "C" __attribute__((noreturn, used)) inline void exit(int code) noexcept {
  if (files::exit_to != nullptr) {
    files::exit_code = code;
    longjmp(*files::exit_to, 1);
  }
  fflush(stdout), fflush(stderr);
  _exit(code);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((used)) inline const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"; }
extern "C" __attribute__((used)) inline const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; }
#endif
