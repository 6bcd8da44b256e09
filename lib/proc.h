// Programs which are run by a check: the exit code or -1 if it is not decided
// by the program itself.
#pragma once
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <spawn.h>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
extern char **environ;
namespace proc {
inline std::string repo() { const char *E = getenv("BCL_REPO"); return E ? E : "/repo"; }
inline int run(const std::vector<std::string> &C, const std::string &Out, const std::string &In = "/dev/null") {
  std::vector<char *> A;
  for (auto &X : C) A.push_back(const_cast<char *>(X.c_str()));
  A.push_back(nullptr);
  posix_spawn_file_actions_t F;
  posix_spawn_file_actions_init(&F);
  posix_spawn_file_actions_addopen(&F, 0, In.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&F, 1, Out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_adddup2(&F, 1, 2);
  pid_t P;
  int R = posix_spawnp(&P, A[0], &F, nullptr, A.data(), environ), St = 0;
  posix_spawn_file_actions_destroy(&F);
  if (R) return -1;
  while (waitpid(P, &St, 0) < 0)
    if (errno != EINTR) return -1;
  return WIFEXITED(St) ? WEXITSTATUS(St) : -1;
}
inline std::string slurp(const std::string &F) {
  std::ifstream I(F);
  return std::string(std::istreambuf_iterator<char>(I), std::istreambuf_iterator<char>());
}
/// A scratch directory that goes away.
struct Scratch {
  std::string Dir;
  explicit Scratch(const std::string &D) : Dir(D) { mkdir(Dir.c_str(), 0755); }
  ~Scratch() { run({"rm", "-rf", Dir}, "/dev/null"); }
  Scratch(const Scratch &) = delete;
  Scratch &operator=(const Scratch &) = delete;
};
} // namespace proc
