// running a program of the repository
#ifndef VERIF_PROC_H_
#define VERIF_PROC_H_
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include "common.h"
extern char** environ;
namespace vf {
struct ProcResult {
  int status = -1;      // exit status; 1000 + signal when killed
  std::string out, err;
};
inline std::string tool(const char* name) {
  std::string v = std::string("VERIF_TOOL_") + name;
  const char* p = getenv(v.c_str());
  if (p == nullptr) abort();
  return p;
}
inline ProcResult run_prog(pbt::Ctx& c, const std::vector<std::string>& args, const std::string& in = "", bool piped = false) {
  ProcResult r;
  std::vector<char*> av;
  for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  std::string o = c.path("stdout.txt"), e = c.path("stderr.txt");
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  int fds[2] = {-1, -1};
  std::string bytes = piped ? read_file(in) : std::string();
  if (bytes.size() >= 60000) piped = false;  // what a pipe holds without a reader
  if (piped) {
    if (pipe(fds) != 0 || (ssize_t)bytes.size() != write(fds[1], bytes.data(), bytes.size())) abort();
    ::close(fds[1]);
    posix_spawn_file_actions_adddup2(&fa, fds[0], 0);
    posix_spawn_file_actions_addclose(&fa, fds[0]);
  } else
    posix_spawn_file_actions_addopen(&fa, 0, in.empty() ? "/dev/null" : in.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  pid_t pid;
  if (posix_spawn(&pid, av[0], &fa, nullptr, av.data(), environ) != 0) abort();
  posix_spawn_file_actions_destroy(&fa);
  if (piped) ::close(fds[0]);
  int st = 0;
  int waited = 0;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    // a program that does not end is a hang of the case
    usleep(200);
    if (++waited > 150000) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      throw pbt::Failure("hang", "the program did not end: " + args[0]);
    }
  }
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  r.out = read_file(o);
  r.err = read_file(e);
  return r;
}
}  // namespace vf
#endif
