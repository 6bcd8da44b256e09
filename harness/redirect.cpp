// C14: redirection to files against a model of the file's content.
#include "pbt.h"
#include "oom.h"
#include <cerrno>
#include <cstring>
#include <memory>
#include <bcl/RedirectIO.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <vector>
using pbt::Gen;

namespace {
size_t openFds() {
  size_t N = 0;
  DIR *D = opendir("/proc/self/fd");
  while (readdir(D)) ++N;
  closedir(D);
  return N;
}
std::string slurp(const std::string &F) {
  std::string S;
  int Fd = open(F.c_str(), O_RDONLY);
  char B[65536];
  for (ssize_t N; Fd >= 0 && (N = read(Fd, B, sizeof B)) > 0;) S.append(B, N);
  if (Fd >= 0) close(Fd);
  return S;
}
void spill(int Fd, const std::string &S) {
  for (size_t P = 0; P < S.size();) {
    ssize_t N = write(Fd, S.data() + P, S.size() - P);
    if (N <= 0) pbt::fail("write", "the redirected descriptor is not writable");
    P += N;
  }
}
std::string text(Gen &g) {
  switch (g.below(6)) {
  case 0: return g.bytes(20);
  case 1: return g.bytes(20, "ab\n");
  case 2: { // around the sizes of buffers
    size_t N = g.pick<size_t>({99, 100, 101, 198, 199, 200, 4095, 4096, 4097, 8192, 70000});
    std::string S(N, 'x');
    for (int K = 0; K < 4; ++K) S[g.below(N)] = g.pick<char>({'\n', '\0', '\xff', 'y'});
    return S;
  }
  case 3: return std::string(g.below(4), '\0') + g.bytes(6, "a\n");
  default: return g.bytes(120);
  }
}
std::string brief(const std::string &S) {
  return S.size() > 60 ? pbt::show(S.substr(0, 60)) + "... (" + std::to_string(S.size()) + " bytes)" : pbt::show(S);
}

/// The file operation that is going to fail.
struct Fault {
  bool On = false;
  unsigned At = 0, Count = 0; // the operation number At fails
  int Err = 0;
  std::string Op; // which one has failed
  bool Twice = false, Second = false; // the file cannot be closed afterwards
  bool now(const char *Name) {
    if (!On) return false;
    if (Twice && !Second && !Op.empty() && !std::strcmp(Name, "fclose")) {
      Second = true;
      errno = Err;
      return true;
    }
    if (++Count != At) return false;
    Op = Name;
    errno = Err;
    return true;
  }
} Fault;

/// One redirected descriptor with its stack of redirections.
struct Red {
  bcl::RedirectIO R;
  bool Set = false, Active = false, Failed = false; // Active: From still goes here
  std::string File, Content;
  size_t Start = 0, Pos = 0;
};
} // namespace

// See -Wl,--wrap.
extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_dup2(int, int), __real_fgetc(FILE *), __real_fflush(FILE *), __real_fseek(FILE *, long, int), __real_fclose(FILE *);
long __real_ftell(FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *);
FILE *__wrap_fopen(const char *N, const char *M) { return Fault.now("fopen") ? nullptr : __real_fopen(N, M); }
int __wrap_dup2(int A, int B) { return Fault.now("dup2") ? -1 : __real_dup2(A, B); }
int __wrap_fgetc(FILE *F) { return Fault.now("fgetc") ? EOF : __real_fgetc(F); }
int __wrap_fflush(FILE *F) { return Fault.now("fflush") ? EOF : __real_fflush(F); }
int __wrap_fseek(FILE *F, long P, int W) { return Fault.now("fseek") ? -1 : __real_fseek(F, P, W); }
long __wrap_ftell(FILE *F) { return Fault.now("ftell") ? -1 : __real_ftell(F); }
size_t __wrap_fread(void *B, size_t S, size_t N, FILE *F) {
  if (Fault.now("fread")) {
    N /= 2; // a part is read
    if (N) __real_fread(B, S, N, F);
    clearerr(F);
    F->_flags |= 0x20; // _IO_ERR_SEEN
    errno = Fault.Err;
    return 0;
  }
  return __real_fread(B, S, N, F);
}
int __wrap_fclose(FILE *F) { // the stream is closed anyway
  bool Bad = Fault.now("fclose");
  int R = __real_fclose(F);
  if (!Bad) return R;
  errno = Fault.Err;
  return EOF;
}
}

PROPERTY(redirect, 100000, 400000, O.Guided = true) {
  size_t Fds = openFds();
  std::string Base = pbt::tmp() + "/r" + std::to_string(getpid()) + ".";
  constexpr int NF = 3;
  std::string Files[NF], Disk[NF];
  bool Exists[NF] = {};
  for (int I = 0; I < NF; ++I) {
    Files[I] = Base + std::to_string(I);
    unlink(Files[I].c_str());
  }
  int From = open("/dev/null", O_WRONLY);
  FILE *Stream = fdopen(From, "wb");
  {
    Red S[2];
    int Cur = -1;      // file that From writes to
    bool App = false;  // opened for appending
    size_t Offset = 0; // shared offset (not appending)
    int Writes = 0, Diffs = 0;
    auto owner = [&]() -> Red * {
      for (auto &X : S) if (X.Active) return &X;
      return nullptr;
    };
    for (size_t N = 1 + g.below(25); N--;) {
      int K = (int)g.below(2);
      Red &X = S[K];
      unsigned Op = g.weighted({8, 7, 4, 3, 3, 4, 2, 1});
      if (Op == 0 && Cur < 0) Op = 5;
      if (Op && !X.Set && Op < 6) {
        if (Op == 1) { // nothing is redirected by a default object
          NOTE("object " << K << " (not redirected).isDiff()");
          CHECK("inactive", !X.R.mayRedirected() && !X.R.hasErrors() && !X.R.isDiff());
          continue;
        }
        Op = 5;
      }
      switch (Op) {
      case 0: { // write to the stream
        std::string T = text(g);
        NOTE("write " << brief(T));
        if (g.coin()) spill(From, T);
        else {
          if (!T.empty()) CHECK("write", fwrite(T.data(), 1, T.size(), Stream) == T.size());
          CHECK("write", fflush(Stream) == 0);
        }
        if (Cur >= 0) {
          Disk[Cur] += T;
          if (auto *W = owner()) W->Content += T;
        }
        if (T.size()) ++Writes;
        break;
      }
      case 1: {
        if (X.Failed) {
          CHECK("failed", !X.R.isDiff() && X.R.hasErrors());
          break;
        }
        std::string Exp = X.Content.substr(X.Pos);
        std::string Got = X.R.diff();
        NOTE("object " << K << ".diff() -> " << brief(Got));
        CHECK("diff", Got == Exp, << "diff() returned " << brief(Got) << " instead of " << brief(Exp));
        if (Writes) ++Diffs;
        break;
      }
      case 2: {
        bool Exp = !X.Failed && X.Content.size() != X.Pos, Got = X.R.isDiff();
        NOTE("object " << K << ".isDiff() -> " << Got);
        CHECK("isDiff", Got == Exp, << "isDiff() returned " << Got << ", but " << X.Content.size() - X.Pos << " bytes have been written since");
        break;
      }
      case 3:
        if (X.Failed) break;
        CHECK("setDiffPos", X.R.setDiffPos());
        X.Pos = X.Content.size();
        NOTE("object " << K << ".setDiffPos()");
        break;
      case 4:
        if (X.Failed) break;
        X.R.resetDiffPos();
        X.Pos = X.Start;
        NOTE("object " << K << ".resetDiffPos()");
        break;
      case 5: { // redirect (again)
        int F = (int)g.below(NF);
        bool InUse = false;
        for (int J = 0; J < 2; ++J) InUse = InUse || (S[J].Set && !S[J].Failed && S[J].File == Files[F]);
        if (InUse) break;
        bool Append = g.coin();
        unsigned Bad = g.chance(1, 10) ? 1 + (unsigned)g.below(2) : 0;
        if (Bad == 2 && F == Cur) break; // would truncate a file that is written to
        std::string Name = Bad == 1 ? Base + "none/" + std::to_string(F) : Files[F];
        NOTE("object " << K << " = redirect to file " << F << (Append ? " (append)" : " (rewrite)") << (Bad ? Bad == 1 ? " that cannot be opened" : " from a bad descriptor" : ""));
        if (!Exists[F] && Bad != 1 && g.coin()) { // something was in the file
          std::string T = text(g);
          int Fd = open(Files[F].c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
          spill(Fd, T);
          close(Fd);
          Disk[F] = T;
        }
        auto M = Append ? bcl::RedirectIO::Mode::Append : bcl::RedirectIO::Mode::Rewrite;
        int Src = Bad == 2 ? -1 : From;
        if (g.coin()) {
          bcl::RedirectIO T(Src, Name, M);
          X.R = std::move(T);
          CHECK("moved", !T.mayRedirected(), << "an object is still redirected after it has been moved");
        } else
          X.R = Append || g.coin() ? bcl::RedirectIO(Src, Name, M) : bcl::RedirectIO(Src, Name);
        CHECK("name", X.R.mayRedirected() && X.R.fileName() == Name);
        CHECK("errors", X.R.hasErrors() == (Bad != 0) && X.R.errors().empty() == (Bad == 0), << "errors: " << X.R.errors().size());
        X.Set = true;
        X.Failed = Bad != 0;
        if (Bad != 1) {
          Exists[F] = true;
          if (!Append) Disk[F].clear();
        }
        X.Active = false;
        if (Bad) break;
        for (auto &Y : S) Y.Active = false;
        X.Active = true;
        X.File = Files[F];
        X.Content = Disk[F];
        X.Start = X.Pos = Disk[F].size();
        Cur = F;
        break;
      }
      case 6: // move to the other object and back
        if (!X.Set) break;
        NOTE("object " << K << " moved");
        {
          bcl::RedirectIO T(std::move(X.R));
          X.R = std::move(T);
          if (g.coin()) X.R = std::move(X.R); // nothing happens
        }
        CHECK("moved", X.R.mayRedirected());
        break;
      default: { // destroy; the redirection remains
        NOTE("object " << K << " = not redirected");
        X.R = bcl::RedirectIO();
        CHECK("inactive", !X.R.mayRedirected() && !X.R.hasErrors());
        X.Set = X.Active = X.Failed = false;
        break;
      }
      }
      for (auto &Y : S)
        if (Y.Set && !Y.Failed) CHECK("errors", !Y.R.hasErrors(), << "an error is recorded: " << *Y.R.errors().begin());
    }
    for (int I = 0; I < NF; ++I) {
      if (!Exists[I]) continue;
      std::string Got = slurp(Files[I]);
      CHECK("file", Got == Disk[I], << "file " << I << " holds " << brief(Got) << " instead of " << brief(Disk[I]));
    }
    if (Diffs > 1 && Writes > 1) g.nontrivial();
  }
  fclose(Stream);
  for (int I = 0; I < NF; ++I) unlink(Files[I].c_str());
  CHECK("descriptors", openFds() == Fds, << "descriptors are left open");
}
/// Input is redirected from a file: the descriptor delivers the bytes of the file.
PROPERTY(input, 10000, 100000) {
  size_t Fds = openFds();
  std::string Base = pbt::tmp() + "/i" + std::to_string(getpid()) + ".";
  constexpr int NF = 2;
  std::string Disk[NF];
  bool Exists[NF] = {};
  for (int I = 0; I < NF; ++I) {
    unlink((Base + std::to_string(I)).c_str());
    if (g.chance(1, 5)) continue;
    Exists[I] = true;
    Disk[I] = text(g);
    int Fd = open((Base + std::to_string(I)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    spill(Fd, Disk[I]);
    close(Fd);
    NOTE("file " << I << " holds " << brief(Disk[I]));
  }
  int From = open("/dev/null", O_RDONLY);
  {
    bcl::RedirectIO R;
    int Cur = -1;
    size_t Off = 0, Reads = 0;
    for (size_t N = 1 + g.below(10); N--;) {
      switch (g.weighted({2, 6, 1})) {
      case 0: {
        int F = (int)g.below(NF);
        std::string Name = Base + std::to_string(F);
        NOTE("input is redirected to file " << F << (Exists[F] ? "" : " that does not exist"));
        R = bcl::RedirectIO(From, Name, bcl::RedirectIO::Mode::Read);
        CHECK("name", R.mayRedirected() && R.fileName() == Name);
        CHECK("errors", R.hasErrors() == !Exists[F] && R.errors().empty() == Exists[F], << "errors: " << R.errors().size());
        CHECK("created", (access(Name.c_str(), F_OK) == 0) == Exists[F], << "the file has been created or removed");
        if (Exists[F]) {
          CHECK("isDiff", !R.isDiff(), << "something has changed before anything was read");
          Cur = F;
          Off = 0;
        }
        break;
      }
      case 1: {
        size_t M = g.pick<size_t>({1, 2, 7, 100, 4096, 100000});
        std::string B(M, 0);
        ssize_t Got = read(From, &B[0], M);
        CHECK("read", Got >= 0);
        B.resize(Got);
        std::string Exp = Cur < 0 ? "" : Disk[Cur].substr(Off, M);
        NOTE("read " << M << " -> " << brief(B));
        CHECK("read", B == Exp, << brief(B) << " is read instead of " << brief(Exp));
        Off += Exp.size();
        if (!Exp.empty()) ++Reads;
        break;
      }
      default:
        NOTE("the object is destroyed");
        R = bcl::RedirectIO();
      }
    }
    if (Reads > 1) g.nontrivial();
  }
  for (int I = 0; I < NF; ++I) {
    if (!Exists[I]) continue;
    CHECK("file", slurp(Base + std::to_string(I)) == Disk[I], << "the file has changed");
    unlink((Base + std::to_string(I)).c_str());
  }
  close(From);
  CHECK("descriptors", openFds() == Fds, << "descriptors are left open");
}

// A redirection has one owner.
PROPERTY(owner, 100, 1000) {
  using R = bcl::RedirectIO;
  CHECK("uncopyable", (!std::is_copy_constructible<R>::value && !std::is_copy_assignable<R>::value));
  CHECK("movable", (std::is_move_constructible<R>::value && std::is_move_assignable<R>::value));
  g.nontrivial();
}

// A file operation fails: this is reported and nothing else is lost.
PROPERTY(faulty, 60000, 300000) {
  size_t Fds = openFds();
  std::string File = pbt::tmp() + "/f" + std::to_string(getpid());
  unlink(File.c_str());
  std::string Disk = text(g);
  {
    int Fd = open(File.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    spill(Fd, Disk);
    close(Fd);
  }
  int From = open("/dev/null", O_WRONLY);
  bool Append = g.coin();
  int Faults = 0;
  {
    struct Disarm { ~Disarm() { Fault.On = false; } } Disarm;
    size_t Start = 0, Pos = 0, Errors = 0;
    bool Set = false, Failed = false;
    bcl::RedirectIO R;
    auto arm = [&](unsigned Among) {
      Fault.Op.clear();
      Fault.Second = false;
      Fault.Twice = g.chance(1, 4);
      Fault.Count = 0;
      Fault.At = g.chance(1, 2) ? 1 + (unsigned)g.below(Among) : 0;
      Fault.Err = g.pick({EIO, ENOSPC, EBADF, EINTR, EACCES, ESPIPE, EMFILE, EINVAL, ENOMEM, 999999});
      Fault.On = true;
    };
    // One more error is known, the failed operation is described.
    auto reported = [&](const char *What) {
      Fault.On = false;
      size_t Now = R.mayRedirected() ? R.errors().size() : 0;
      if (Fault.Op.empty()) {
        CHECK("errors", Now == Errors, << What << ": " << Now << " errors instead of " << Errors);
        return false;
      }
      ++Faults;
      NOTE(What << ": " << Fault.Op << "() fails: " << strerror(Fault.Err));
      if (Fault.Second) {
        NOTE("and the file cannot be closed");
        ++Errors;
      }
      CHECK("reported", Now == ++Errors && R.hasErrors(), << What << ": " << Fault.Op << "() fails, " << Now << " errors instead of " << Errors);
      std::string E = strerror(Fault.Err);
      E[0] = tolower(E[0]);
      E = "redirect error C" + std::to_string(Fault.Err) + "(0): " + File + ": " + E + " (" + Fault.Op + ")";
      std::string Last;
      size_t I = 0;
      for (auto X : R.errors())
        if (++I == Errors - Fault.Second) Last = X;
      CHECK("description", Last == E, << pbt::show(Last) << " instead of " << pbt::show(E));
      return true;
    };
    for (size_t N = 1 + g.below(14); N--;) {
      unsigned Op = !Set ? 0 : g.weighted({1, 6, 6, 3, 3, 2, 1});
      switch (Op) {
      case 0: { // redirect
        if (Set) { // the old object first
          R = bcl::RedirectIO();
          Errors = 0;
        }
        if (g.chance(1, 8)) { // no memory: nothing is redirected
          unsigned At = 1 + (unsigned)g.below(3);
          bool Thrown = oom::run(At, [&] { bcl::RedirectIO T(From, File, Append ? bcl::RedirectIO::Mode::Append : bcl::RedirectIO::Mode::Rewrite); });
          NOTE("redirect: allocation " << At << (Thrown ? " fails" : " is not reached"));
          if (Thrown) {
            g.label("no memory to redirect");
            Set = false;
            continue;
          }
          if (!Append) Disk.clear();
        }
        arm(g.coin() ? 5 : 3 + (unsigned)Disk.size());
        {
          bcl::RedirectIO T(From, File, Append ? bcl::RedirectIO::Mode::Append : bcl::RedirectIO::Mode::Rewrite);
          R = std::move(T);
        }
        if (!Append && Fault.Op != "fopen") Disk.clear();
        Errors = 0;
        Set = true;
        Failed = reported("redirect");
        CHECK("name", R.mayRedirected() && R.fileName() == File);
        if (Failed) { // until the next attempt
          size_t E = Errors;
          CHECK("failed", !R.isDiff() && R.hasErrors());
          Errors = R.errors().size();
          CHECK("failed", Errors == E + 1);
          // It is not known what the descriptor refers to.
          int Null = open("/dev/null", O_WRONLY);
          __real_dup2(Null, From);
          close(Null);
        } else {
          Start = Pos = Disk.size();
          NOTE("redirect" << (Append ? " (append)" : " (rewrite)") << " at " << Start);
        }
        break;
      }
      case 1: {
        if (Failed) break;
        std::string T = text(g);
        spill(From, T);
        Disk += T;
        NOTE("write " << brief(T));
        break;
      }
      case 2: {
        if (Failed) break;
        std::string Exp = Disk.substr(Pos);
        if (g.chance(1, 6)) { // no memory: what is written later follows
          unsigned At = 1 + (unsigned)g.below(4);
          std::string Got;
          bool Thrown = oom::run(At, [&] { Got = R.diff(); });
          NOTE("diff: allocation " << At << (Thrown ? " fails" : " is not reached"));
          CHECK("diff", Thrown || Got == Exp, << "diff() returned " << brief(Got) << " instead of " << brief(Exp));
          CHECK("errors", R.errors().size() == Errors);
          if (Thrown) g.label("no memory for a difference");
          break;
        }
        arm(g.coin() ? 6 : 6 + (unsigned)Exp.size() / 100);
        std::string Got = R.diff();
        if (reported("diff")) CHECK("diff-failed", Got.empty(), << brief(Got) << " is returned after an error");
        else CHECK("diff", Got == Exp, << "diff() returned " << brief(Got) << " instead of " << brief(Exp));
        NOTE("diff -> " << brief(Got));
        break;
      }
      case 3: {
        if (Failed) break;
        arm(3);
        bool Got = R.isDiff();
        if (reported("isDiff")) CHECK("isDiff-failed", !Got);
        else CHECK("isDiff", Got == (Pos != Disk.size()));
        break;
      }
      case 4: {
        if (Failed) break;
        arm(2);
        bool Got = R.setDiffPos();
        if (reported("setDiffPos")) CHECK("setDiffPos-failed", !Got);
        else {
          CHECK("setDiffPos", Got);
          Pos = Disk.size();
        }
        NOTE("setDiffPos -> " << Got);
        break;
      }
      case 5:
        if (Failed) break;
        R.resetDiffPos();
        Pos = Start;
        NOTE("resetDiffPos");
        break;
      default: { // the file cannot be closed properly
        arm(2);
        NOTE("destroy");
        { bcl::RedirectIO T(std::move(R)); }
        if (!Fault.Op.empty()) ++Faults;
        Fault.On = false;
        R = bcl::RedirectIO();
        Set = Failed = false;
        Errors = 0;
      }
      }
    }
    CHECK("file", slurp(File) == Disk, << "the file holds " << brief(slurp(File)) << " instead of " << brief(Disk));
  }
  close(From);
  unlink(File.c_str());
  CHECK("descriptors", openFds() == Fds, << "descriptors are left open");
  if (Faults > 1) g.nontrivial();
}
