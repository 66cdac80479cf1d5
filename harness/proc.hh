// Running programs in scratch directories.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct TmpDir {
  std::string path;
  TmpDir() {
    char buf[] = "/dev/shm/verif.XXXXXX", alt[] = "/tmp/verif.XXXXXX";
    if (char* p = mkdtemp(buf))
      path = p;
    else if (char* q = mkdtemp(alt))
      path = q;
    else
      abort();
  }
  TmpDir(const TmpDir&) = delete;
  ~TmpDir() {
    std::error_code e;
    for (auto& f : std::filesystem::directory_iterator(path, e)) std::filesystem::remove(f.path(), e);
    std::filesystem::remove(path, e);
  }
  void put(const std::string& name, const std::string& text) { std::ofstream(path + "/" + name, std::ios::binary) << text; }
  std::map<std::string, std::string> all() {
    std::map<std::string, std::string> m;
    for (auto& f : std::filesystem::directory_iterator(path)) {
      if (f.path().filename() == ".out") continue;
      std::ifstream is(f.path(), std::ios::binary);
      std::stringstream ss;
      ss << is.rdbuf();
      m[f.path().filename()] = ss.str();
    }
    return m;
  }
};

struct Run {
  int status = -1, sig = 0;
  bool timed_out = false;
  std::string out;  // standard output and error
  bool ok() const { return status == 0; }
  bool memory_error() const {
    return out.find("AddressSanitizer") != std::string::npos || out.find("runtime error:") != std::string::npos || sig == SIGSEGV || sig == SIGBUS;
  }
  std::string show() const {
    std::string t = out.size() > 2500 ? out.substr(out.size() - 2500) : out;
    return timed_out ? "does not finish: " + t : sig ? "killed by signal " + std::to_string(sig) + ": " + t : "exit status " + std::to_string(status) + ": " + t;
  }
};

inline Run run_program(const std::string& dir, const std::string& exe, const std::vector<std::string>& args, int cpu = 60) {
  std::string outf = dir + "/.out";
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str())) _exit(97);
    int o = open(outf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    dup2(o, 1);
    dup2(o, 2);
    struct itimerval off = {};
    setitimer(ITIMER_VIRTUAL, &off, nullptr);
    for (int s = 1; s < 32; ++s) signal(s, SIG_DFL);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 1};
    setrlimit(RLIMIT_CPU, &rl);
    std::vector<char*> av{const_cast<char*>(exe.c_str())};
    for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    execv(exe.c_str(), av.data());
    _exit(98);
  }
  Run r;
  int st = 0;
  waitpid(pid, &st, 0);
  std::ifstream is(outf, std::ios::binary);
  std::stringstream ss;
  ss << is.rdbuf();
  r.out = ss.str();
  if (WIFEXITED(st))
    r.status = WEXITSTATUS(st);
  else
    r.sig = WTERMSIG(st);
  r.timed_out = r.sig == SIGXCPU || (r.sig == SIGKILL);
  return r;
}
