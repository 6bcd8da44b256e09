//===- pbt.cpp - property-based testing engine ------------------*- C++ -*-===//
#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" {
#ifdef PBT_ASAN
size_t __sanitizer_get_current_allocated_bytes(void);
/// A harness that defines it allocates huge blocks.
extern const bool pbtHugeBlocks __attribute__((weak));
#define PBT_ASAN_OPTIONS(Mb)                                                   \
  "detect_leaks=0:exitcode=99:allocator_may_return_null=0:"                    \
  "max_allocation_size_mb=" Mb ":handle_abort=0:quarantine_size_mb=8:"         \
  "detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:"                  \
  "thread_local_quarantine_size_kb=64:malloc_context_size=12:"                 \
  "max_malloc_fill_size=65536"
const char *__asan_default_options() {
  return &pbtHugeBlocks ? PBT_ASAN_OPTIONS("65536") : PBT_ASAN_OPTIONS("4096");
}
const char *__ubsan_default_options() {
  return "halt_on_error=1:print_stacktrace=1:exitcode=99";
}
#endif
#ifdef PBT_TSAN
const char *__tsan_default_options() {
  return "exitcode=99:halt_on_error=1:report_signal_unsafe=0:"
         "second_deadlock_stack=1:detect_deadlocks=0:report_thread_leaks=0";
}
#endif
}

namespace pbt {
void (*gWorkerInit)() = nullptr;

static const size_t TapeCap = 1u << 16;
static const size_t TextCap = 1u << 16;
static const unsigned MaxLabels = 64;

struct Shm {
  std::atomic<uint64_t> Index;  // current case
  std::atomic<uint64_t> Done;   // completed cases
  std::atomic<uint64_t> Stop;   // lowest failing index of any worker (slot 0)
  uint64_t NonTrivial, Mutated, Corpus, Edges;
  uint64_t LabelCount[MaxLabels];
  const char *LabelName[MaxLabels];
  unsigned NumLabels;
  int Failed;
  char Tag[128];
  char Msg[8192];
  char Text[TextCap];
  size_t TextLen;
  size_t TapeLen;
  uint64_t Tape[TapeCap];
};

static Shm *S = nullptr;  // of this process
static Shm *S0 = nullptr; // shared slot 0 (Stop)
static uint64_t gSeed = 1;
static bool gThorough = false;
static bool gNonTrivial = false;
static uint64_t gLabelled = 0; // labels of the case
static const uint64_t *gIn = nullptr;
static size_t gInLen = 0;
static bool gRandomTail = false;
static double gCpuLimit = 20;
static std::atomic<double> gCaseCpu0{0};

uint64_t seed() { return gSeed; }
bool thorough() { return gThorough; }

static uint64_t mix(uint64_t X) {
  X += 0x9e3779b97f4a7c15ull;
  X = (X ^ (X >> 30)) * 0xbf58476d1ce4e5b9ull;
  X = (X ^ (X >> 27)) * 0x94d049bb133111ebull;
  return X ^ (X >> 31);
}
static uint64_t hashStr(const char *P) {
  uint64_t H = 1469598103934665603ull;
  for (; *P; ++P) H = (H ^ (unsigned char)*P) * 1099511628211ull;
  return H;
}
static double now() {
  timespec T;
  clock_gettime(CLOCK_MONOTONIC, &T);
  return T.tv_sec + T.tv_nsec * 1e-9;
}
static double cpu() {
  timespec T;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &T);
  return T.tv_sec + T.tv_nsec * 1e-9;
}

//===-- Coverage ----------------------------------------------------------===//
static const size_t MapSize = 1u << 16;
static uint8_t gMap[MapSize];
static uint8_t gSeen[MapSize];
static bool gCovOn = false;
static void anchor() {}
/// Preemption inside of instrumented code (sched.cpp).
long gPreempt = 0;
void (*gPreemptHook)() = nullptr;
extern "C" void __sanitizer_cov_trace_pc(void) {
  if (gPreempt > 0 && --gPreempt == 0) gPreemptHook();
  if (!gCovOn) return;
  uint64_t A = (uint64_t)__builtin_return_address(0) - (uint64_t)&anchor;
  A = (A * 0x9e3779b97f4a7c15ull) >> 48;
  uint8_t &C = gMap[A];
  if (C != 255) ++C;
}
static uint8_t bucket(uint8_t C) {
  if (C == 0) return 0;
  if (C == 1) return 1;
  if (C == 2) return 2;
  if (C == 3) return 4;
  if (C < 8) return 8;
  if (C < 16) return 16;
  if (C < 32) return 32;
  if (C < 128) return 64;
  return 128;
}
static bool mergeCoverage() {
  bool New = false;
  for (size_t I = 0; I < MapSize; I += 8) {
    uint64_t W;
    memcpy(&W, gMap + I, 8);
    if (!W) continue;
    for (size_t J = I; J < I + 8; ++J) {
      uint8_t B = bucket(gMap[J]);
      if (B & ~gSeen[J]) {
        if (!gSeen[J]) ++S->Edges;
        gSeen[J] |= B;
        New = true;
      }
    }
    memset(gMap + I, 0, 8);
  }
  return New;
}

//===-- Gen ---------------------------------------------------------------===//
uint64_t Gen::draw(uint64_t N) {
  uint64_t V;
  if (mPos >= TapeCap) return 0;
  if (gIn && mPos < gInLen) {
    V = gIn[mPos];
    if (N && V >= N) V %= N;
  } else if (mReplay && !gRandomTail) {
    V = 0;
  } else {
    mState += 0x9e3779b97f4a7c15ull;
    uint64_t X = mState;
    X = (X ^ (X >> 30)) * 0xbf58476d1ce4e5b9ull;
    X = (X ^ (X >> 27)) * 0x94d049bb133111ebull;
    X ^= X >> 31;
    V = N ? (uint64_t)(((unsigned __int128)X * N) >> 64) : X;
  }
  S->Tape[mPos++] = V;
  S->TapeLen = mPos;
  return V;
}
size_t Gen::len(size_t Max) {
  size_t M = 1 + Max * mSize / 100;
  if (M > Max) M = Max;
  switch (draw(4)) {
  case 0:
  case 1: return draw(std::min<size_t>(Max, 4) + 1);
  case 2: return draw(std::min<size_t>(Max, 12) + 1);
  default: return draw(M + 1);
  }
}
std::string Gen::bytes(size_t Max, const char *Alphabet) {
  size_t N = len(Max);
  std::string R;
  size_t AL = Alphabet ? strlen(Alphabet) : 0;
  for (size_t I = 0; I < N; ++I)
    R += Alphabet ? Alphabet[draw(AL)] : (char)draw(256);
  return R;
}
void Gen::nontrivial() { gNonTrivial = true; }
void Gen::label(const char *Name) {
  for (unsigned I = 0; I < S->NumLabels; ++I)
    if (S->LabelName[I] == Name || !strcmp(S->LabelName[I], Name)) {
      if (I < 64) { // once in a case
        if (gLabelled >> I & 1) return;
        gLabelled |= 1ull << I;
      }
      ++S->LabelCount[I];
      return;
    }
  if (S->NumLabels == MaxLabels) return;
  if (S->NumLabels < 64) gLabelled |= 1ull << S->NumLabels;
  S->LabelName[S->NumLabels] = Name;
  S->LabelCount[S->NumLabels++] = 1;
}
void Gen::noteStr(const std::string &T) {
  size_t N = std::min(T.size() + 1, TextCap - 1 - S->TextLen);
  if (N == 0) return;
  memcpy(S->Text + S->TextLen, T.c_str(), N);
  S->TextLen += N;
  S->Text[S->TextLen - 1] = '\n';
}
std::string show(const std::string &X) {
  std::string R = "\"";
  char B[8];
  for (unsigned char C : X) {
    if (C == '"' || C == '\\') (R += '\\') += (char)C;
    else if (C == '\n') R += "\\n";
    else if (C < 32 || C > 126) { snprintf(B, 8, "\\x%02x", C); R += B; }
    else R += (char)C;
  }
  return R + "\"";
}

static void (*gDump)() = nullptr;

void fail(const char *Tag, const std::string &Msg) {
  S->Failed = 1;
  snprintf(S->Tag, sizeof(S->Tag), "%s", Tag);
  snprintf(S->Msg, sizeof(S->Msg), "%s", Msg.c_str());
  if (gDump) gDump();
  _exit(77);
}

static void onProf(int) {
  if (cpu() - gCaseCpu0.load(std::memory_order_relaxed) > gCpuLimit) {
    S->Failed = 1;
    strcpy(S->Tag, "cpu-limit");
    snprintf(S->Msg, sizeof(S->Msg),
             "the case did not terminate within %.0f s of CPU time", gCpuLimit);
    _exit(78);
  }
  // Resident size, read with calls that are safe in a signal handler.
  int Fd = open("/proc/self/statm", O_RDONLY);
  if (Fd >= 0) {
    char B[128];
    ssize_t L = read(Fd, B, sizeof B - 1);
    close(Fd);
    size_t Pages = 0, I = 0;
    if (L > 0) {
      B[L] = 0;
      while (B[I] && B[I] != ' ') ++I;
      for (++I; B[I] >= '0' && B[I] <= '9'; ++I) Pages = Pages * 10 + (B[I] - '0');
    }
    if (Pages > (size_t)2000 << 8) {
      S->Failed = 1;
      strcpy(S->Tag, "memory-limit");
      strcpy(S->Msg, "the case uses more than 2000 MB of memory");
      _exit(78);
    }
  }
}

static void armTimer() {
  struct sigaction SA;
  memset(&SA, 0, sizeof SA);
  SA.sa_handler = onProf;
  SA.sa_flags = SA_RESTART | SA_ONSTACK;
  static char *Alt = nullptr;
  if (!Alt) {
    Alt = (char *)mmap(nullptr, 1 << 17, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ST;
    memset(&ST, 0, sizeof ST);
    ST.ss_sp = Alt;
    ST.ss_size = 1 << 17;
    sigaltstack(&ST, nullptr);
  }
  sigaction(SIGPROF, &SA, nullptr);
  itimerval T;
  T.it_interval.tv_sec = T.it_value.tv_sec = 0;
  T.it_interval.tv_usec = T.it_value.tv_usec = 200000;
  setitimer(ITIMER_PROF, &T, nullptr);
}

struct Engine {
  static void runCase(const Options &O, uint64_t State, size_t Size,
                      const uint64_t *In, size_t InLen, bool Replay,
                      bool RandomTail, bool Tracing) {
    Gen G;
    G.mTracing = Tracing;
    G.mReplay = Replay;
    G.mState = State;
    G.mSize = Size;
    gIn = In;
    gInLen = InLen;
    gRandomTail = RandomTail;
    gLabelled = 0, gNonTrivial = false;
    S->TapeLen = 0;
    S->TextLen = 0;
    gCaseCpu0.store(cpu(), std::memory_order_relaxed);
#ifdef PBT_ASAN
    size_t B0 = O.LeakCheck ? __sanitizer_get_current_allocated_bytes() : 0;
#endif
    gCovOn = O.Guided && !Replay;
    if (In && RandomTail) gCovOn = O.Guided;
    O.Fn(G);
    gCovOn = false;
#ifdef PBT_ASAN
    if (O.LeakCheck && !Tracing) {
      size_t B1 = __sanitizer_get_current_allocated_bytes();
      if (B1 > B0) {
        // One-time initialisation also grows the heap: believe only growth
        // that repeats with exactly the same choices.
        std::vector<uint64_t> T(S->Tape, S->Tape + S->TapeLen);
        bool NT = gNonTrivial;
        unsigned Grew = 0;
        size_t Last = 0;
        for (int R = 0; R < 3; ++R) {
          size_t C0 = __sanitizer_get_current_allocated_bytes();
          Gen H;
          H.mReplay = true;
          H.mSize = Size;
          gIn = T.data();
          gInLen = T.size();
          gRandomTail = false;
          O.Fn(H);
          size_t C1 = __sanitizer_get_current_allocated_bytes();
          if (C1 > C0) {
            ++Grew;
            Last = C1 - C0;
          }
        }
        gNonTrivial = NT;
        if (Grew == 3)
          fail("leak", std::to_string(Last) +
                           " bytes of heap are still in use after every "
                           "object of the case was destroyed");
      }
    }
#endif
  }
};

//===-- Worker ------------------------------------------------------------===//
static std::vector<Options> &props() {
  static std::vector<Options> V;
  return V;
}
Register::Register(const Options &O) { props().push_back(O); }

struct WorkerState {
  std::string DumpPath;
  std::unordered_set<uint64_t> Hashes;
  std::vector<std::vector<uint64_t>> Samples;
};
static WorkerState *W = nullptr;
static void dumpWorker() {
  if (!W) return;
  std::ofstream F(W->DumpPath);
  F << W->Hashes.size() << "\n";
  for (uint64_t H : W->Hashes) F << H << "\n";
  F << W->Samples.size() << "\n";
  for (auto &T : W->Samples) {
    F << T.size();
    for (uint64_t V : T) F << " " << V;
    F << "\n";
  }
}

static void redirect(const std::string &Log) {
  int Fd = open(Log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (Fd >= 0) {
    dup2(Fd, 2);
    dup2(Fd, 1);
    close(Fd);
  }
  int N = open("/dev/null", O_RDONLY);
  if (N >= 0) { dup2(N, 0); close(N); }
}

static void worker(const Options &O, unsigned Id, unsigned NW, uint64_t Cases,
                   const std::string &Base, double Deadline, uint64_t Until) {
  W = new WorkerState;
  W->DumpPath = Base + ".dump";
  redirect(Base + ".log");
  setpgid(0, 0);
  gCpuLimit = O.CpuLimit;
  if (gWorkerInit) gWorkerInit();
  armTimer();
  gDump = dumpWorker;
  std::vector<std::vector<uint64_t>> Corpus;
  uint64_t PropH = hashStr(O.Name);
  uint64_t K = 0;
  for (uint64_t I = Id; I < Cases && I <= Until; I += NW, ++K) {
    if (S0->Stop.load() < I) break;
    if ((K & 15) == 0 && now() > Deadline) break;
    S->Index.store(I);
    uint64_t St = mix(mix(gSeed ^ mix(PropH)) ^ mix(I * 2 + 1));
    size_t Size = 1 + (K * 7) % 100;
    uint64_t MS = mix(St ^ 0x5bd1e995);
    auto Rnd = [&MS](uint64_t N) {
      MS = mix(MS);
      return N ? MS % N : MS;
    };
    std::vector<uint64_t> In;
    bool Mut = O.Guided && Corpus.size() > 4 && Rnd(5) < 2;
    if (Mut) {
      In = Corpus[Rnd(Corpus.size())];
      unsigned Ops = 1 + (unsigned)Rnd(4);
      while (Ops-- && !In.empty()) {
        size_t P = Rnd(In.size());
        switch (Rnd(7)) {
        case 0: In[P] = Rnd(0); break;
        case 1: In[P] = Rnd(16); break;
        case 2: In[P] += Rnd(2) ? 1 : (uint64_t)-1; break;
        case 3: In.erase(In.begin() + P,
                         In.begin() + std::min<size_t>(In.size(), P + 1 + Rnd(8)));
          break;
        case 4: {
          size_t L = std::min<size_t>(In.size() - P, 1 + Rnd(16));
          std::vector<uint64_t> C(In.begin() + P, In.begin() + P + L);
          size_t Q = Rnd(In.size() + 1);
          In.insert(In.begin() + Q, C.begin(), C.end());
          break;
        }
        case 5: {
          auto &Oth = Corpus[Rnd(Corpus.size())];
          if (Oth.empty()) break;
          In.resize(P);
          size_t Q = Rnd(Oth.size());
          In.insert(In.end(), Oth.begin() + Q, Oth.end());
          break;
        }
        default: In.resize(P); break;
        }
      }
      if (In.size() > TapeCap) In.resize(TapeCap);
      ++S->Mutated;
    }
    Engine::runCase(O, St, Size, Mut ? In.data() : nullptr, In.size(), false,
                    Mut, false);
    S->Done.fetch_add(1);
    if (O.Guided) {
      if (mergeCoverage() && S->TapeLen < 4096) {
        std::vector<uint64_t> T(S->Tape, S->Tape + S->TapeLen);
        if (Corpus.size() < 512) Corpus.push_back(std::move(T));
        else Corpus[Rnd(Corpus.size())] = std::move(T);
        S->Corpus = Corpus.size();
      }
    }
    if (gNonTrivial) {
      ++S->NonTrivial;
      uint64_t H = PropH;
      for (size_t J = 0; J < S->TapeLen; ++J) H = mix(H ^ S->Tape[J]);
      if (W->Hashes.size() < 2000000) W->Hashes.insert(H);
      if (W->Samples.size() < 2 && K > 30 && S->TapeLen < 400)
        W->Samples.emplace_back(S->Tape, S->Tape + S->TapeLen);
    }
  }
  dumpWorker();
  _exit(0);
}

static std::string slurp(const std::string &P, size_t Max = 1 << 16) {
  std::ifstream F(P, std::ios::binary);
  std::string R((std::istreambuf_iterator<char>(F)),
                std::istreambuf_iterator<char>());
  if (R.size() > Max) R.resize(Max);
  return R;
}

/// Name of the class of a failure; the shrinker stays within one class.
static std::string classify(int Status, const Shm *Sh, const std::string &Log,
                            std::string &Msg) {
  if (WIFEXITED(Status) && WEXITSTATUS(Status) == 0) return "";
  if (Sh->Failed) {
    Msg = Sh->Msg;
    return Sh->Tag;
  }
  Msg = Log.substr(0, 6000);
  size_t P;
  if ((P = Log.find("Sanitizer: ")) != std::string::npos &&
      Log.find("ERROR: ") != std::string::npos) {
    size_t E = Log.find_first_of(" \n(", P + 11);
    std::string K = Log.substr(P + 11, E - P - 11);
    if (K == "attempting" && Log.find("double-free") != std::string::npos)
      K = "double-free";
    return "sanitizer:" + K;
  }
  if (Log.find("WARNING: ThreadSanitizer: ") != std::string::npos) {
    P = Log.find("ThreadSanitizer: ") + 17;
    return "tsan:" + Log.substr(P, Log.find_first_of("\n(", P) - P);
  }
  if ((P = Log.find("runtime error: ")) != std::string::npos) {
    std::string L = Log.substr(P + 15, Log.find('\n', P) - P - 15), K;
    unsigned Words = 0;
    for (char C : L) {
      if (isdigit((unsigned char)C) || C == '-') break;
      if (C == ' ' && ++Words == 4) break;
      K += C;
    }
    return "ubsan:" + K;
  }
  if ((P = Log.find("Assertion `")) != std::string::npos)
    return "assert:" + Log.substr(P, Log.find('\n', P) - P).substr(0, 80);
  if (WIFSIGNALED(Status)) {
    Msg = "killed by signal " + std::to_string(WTERMSIG(Status)) + "\n" + Msg;
    return "signal:" + std::to_string(WTERMSIG(Status));
  }
  Msg = "exited with status " + std::to_string(WEXITSTATUS(Status)) + "\n" + Msg;
  return "exit:" + std::to_string(WEXITSTATUS(Status));
}

static void killGroup(pid_t P) {
  kill(-P, SIGKILL);
  kill(P, SIGKILL);
}

struct One { std::string Class, Msg, Trace; bool NonTrivial; };

static Shm *newShm() {
  void *P = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (P == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm *)P;
}

static std::string gTmp;
const std::string &tmp() { return gTmp; }

/// Runs one tape in a fresh child.
static One runOne(const Options &O, const std::vector<uint64_t> &Tape,
                  bool Tracing) {
  static Shm *Sh = newShm();
  memset((void *)Sh, 0, offsetof(Shm, Tape));
  std::string Log = gTmp + "/one.log";
  pid_t P = fork();
  if (P == 0) {
    S = Sh;
    redirect(Log);
    setpgid(0, 0);
    gCpuLimit = O.CpuLimit;
    if (gWorkerInit) gWorkerInit();
    armTimer();
    Engine::runCase(O, 0, 100, Tape.data(), Tape.size(), true, false, Tracing);
    if (gNonTrivial) S->NonTrivial = 1;
    _exit(0);
  }
  int Status = 0;
  double T0 = now();
  bool Hang = false;
  for (useconds_t D = 100;; D = std::min<useconds_t>(D * 2, 20000)) {
    pid_t R = waitpid(P, &Status, WNOHANG);
    if (R == P) break;
    if (now() - T0 > O.WallLimit) {
      killGroup(P);
      waitpid(P, &Status, 0);
      Hang = true;
      break;
    }
    usleep(D);
  }
  kill(-P, SIGKILL);
  One R;
  if (Hang) {
    R.Class = "hang";
    R.Msg = "no progress for " + std::to_string((int)O.WallLimit) + " s";
  } else
    R.Class = classify(Status, Sh, slurp(Log), R.Msg);
  R.Trace.assign(Sh->Text, Sh->TextLen);
  R.NonTrivial = Sh->NonTrivial;
  return R;
}

static std::vector<uint64_t> shrink(const Options &O, std::vector<uint64_t> T,
                                    const std::string &Class, double Budget,
                                    unsigned &Attempts) {
  double End = now() + Budget;
  auto Try = [&](const std::vector<uint64_t> &C) {
    if (now() > End) return false;
    ++Attempts;
    if (runOne(O, C, false).Class != Class) return false;
    T = C;
    return true;
  };
  auto Less = [](const std::vector<uint64_t> &A, const std::vector<uint64_t> &B) {
    return A.size() != B.size() ? A.size() < B.size() : A < B;
  };
  while (!T.empty() && T.back() == 0) T.pop_back();
  bool Again = true;
  while (Again && now() < End) {
    std::vector<uint64_t> Start = T;
    for (size_t L = std::max<size_t>(T.size() / 2, 1); L >= 1 && now() < End; L /= 2) {
      for (size_t I = 0; I < T.size() && now() < End;) {
        std::vector<uint64_t> C = T;
        C.erase(C.begin() + I, C.begin() + std::min(C.size(), I + L));
        if (Try(C)) continue;
        C = T;
        bool Nz = false;
        for (size_t J = I; J < std::min(T.size(), I + L); ++J) {
          Nz |= C[J] != 0;
          C[J] = 0;
        }
        if (Nz) Try(C);
        I += L;
      }
    }
    for (size_t I = 0; I < T.size() && now() < End; ++I) {
      uint64_t Lo = 0, Hi = T[I];
      while (Lo < Hi && now() < End) { // smallest value that still fails
        uint64_t M = Lo + (Hi - Lo) / 2;
        std::vector<uint64_t> C = T;
        C[I] = M;
        if (Try(C)) Hi = M;
        else Lo = M + 1;
      }
      if (I < T.size() && T[I] > 0)
        for (size_t D = 1; D <= 6 && I + 1 + D <= T.size(); ++D) {
          std::vector<uint64_t> C = T; // a shorter sequence: count - 1, drop D
          --C[I];
          C.erase(C.begin() + I + 1, C.begin() + I + 1 + D);
          if (Try(C)) break;
        }
    }
    while (!T.empty() && T.back() == 0) T.pop_back();
    Again = Less(T, Start);
  }
  return T;
}

static std::string js(const std::string &X) {
  std::string R = "\"";
  char B[8];
  for (unsigned char C : X) {
    if (C == '"' || C == '\\') (R += '\\') += (char)C;
    else if (C < 32 || C > 126) { snprintf(B, 8, "\\u%04x", C); R += B; }
    else R += (char)C;
  }
  return R + "\"";
}

static std::string jsTape(const std::vector<uint64_t> &T) {
  std::string R = "[";
  for (size_t I = 0; I < T.size(); ++I) (I ? R += "," : R) += std::to_string(T[I]);
  return R + "]";
}

static std::string jsonStr(const std::string &D, const char *Key) {
  size_t P = D.find(std::string("\"") + Key + "\": \"");
  if (P == std::string::npos) return "";
  P += strlen(Key) + 5;
  return D.substr(P, D.find('"', P) - P);
}

static int replayFile(const std::string &Path) {
  std::string D = slurp(Path, 1 << 26);
  std::string Name = jsonStr(D, "target");
  size_t P = D.find("\"tape\": [");
  std::vector<uint64_t> T;
  if (P != std::string::npos) {
    const char *C = D.c_str() + P + 9;
    while (*C && *C != ']') {
      char *E;
      T.push_back(strtoull(C, &E, 10));
      if (E == C) { T.pop_back(); break; }
      C = E;
      if (*C == ',') ++C;
    }
  }
  for (auto &O : props())
    if (Name == O.Name) {
      One R = runOne(O, T, true);
      printf("%s", R.Trace.c_str());
      if (R.Class.empty()) {
        printf("replay: the case passes\n");
        return 0;
      }
      printf("replay: FAILED [%s] %s\n", R.Class.c_str(), R.Msg.c_str());
      return 1;
    }
  fprintf(stderr, "unknown target %s\n", Name.c_str());
  return 3;
}

struct WProc { pid_t Pid; Shm *Sh; std::string Base; bool Live; uint64_t LastDone; double LastT; };

int mainImpl(int argc, char **argv) {
  std::string Out, ReplayDir = ".", Replay, Only;
  unsigned NW = 8;
  double TimeCap = 1e9;
  double Scale = 1;
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    auto Next = [&] { return std::string(I + 1 < argc ? argv[++I] : ""); };
    if (A == "--seed") gSeed = strtoull(Next().c_str(), nullptr, 10);
    else if (A == "--thorough") gThorough = true;
    else if (A == "--out") Out = Next();
    else if (A == "--replay-dir") ReplayDir = Next();
    else if (A == "--replay") Replay = Next();
    else if (A == "--workers") NW = (unsigned)atoi(Next().c_str());
    else if (A == "--only") Only = Next();
    else if (A == "--time-cap") TimeCap = atof(Next().c_str());
    else if (A == "--scale") Scale = atof(Next().c_str());
    else if (A == "--tmp") gTmp = Next();
    else { fprintf(stderr, "unknown option %s\n", A.c_str()); return 3; }
  }
  signal(SIGPIPE, SIG_DFL);
  char Tmpl[] = "/tmp/pbt.XXXXXX";
  bool OwnTmp = gTmp.empty();
  if (OwnTmp) gTmp = mkdtemp(Tmpl);
  if (!Replay.empty()) {
    int R = replayFile(Replay);
    if (OwnTmp) { unlink((gTmp + "/one.log").c_str()); rmdir(gTmp.c_str()); }
    return R;
  }
  std::ostringstream Js;
  Js << "{\"seed\":" << gSeed << ",\"targets\":[";
  bool FirstT = true, AnyFail = false;
  double RunT0 = now();
  for (auto &O : props()) {
    if (!Only.empty() && Only != O.Name) continue;
    double T0 = now();
    double Deadline = RunT0 + TimeCap;
    uint64_t Cases = (uint64_t)((gThorough ? O.Thorough : O.Quick) * Scale);
    if (Cases == 0) Cases = 1;
    unsigned N = O.Workers ? std::min(O.Workers, NW) : NW;
    if (N > Cases) N = (unsigned)Cases;
    std::vector<WProc> Ws(N);
    for (auto &P : Ws) P.Sh = newShm();
    S0 = Ws[0].Sh;
    S0->Stop.store(~0ull);
    for (unsigned I = 0; I < N; ++I) {
      Ws[I].Base = gTmp + "/" + O.Name + "." + std::to_string(I);
      pid_t P = fork();
      if (P == 0) {
        S = Ws[I].Sh;
        S->Index.store(I);
        worker(O, I, N, Cases, Ws[I].Base, Deadline, ~0ull);
      }
      Ws[I].Pid = P;
      Ws[I].Live = true;
      Ws[I].LastDone = 0;
      Ws[I].LastT = now();
    }
    struct Failure { uint64_t Index; unsigned W; std::string Class, Msg; std::vector<uint64_t> Tape; };
    std::vector<Failure> Fails;
    unsigned Live = N;
    uint64_t Inconclusive = 0;
    while (Live) {
      bool Any = false;
      for (unsigned I = 0; I < N; ++I) {
        auto &P = Ws[I];
        if (!P.Live) continue;
        int St;
        pid_t R = waitpid(P.Pid, &St, WNOHANG);
        bool Hang = false;
        if (R != P.Pid) {
          uint64_t D = P.Sh->Done.load();
          if (D != P.LastDone) { P.LastDone = D; P.LastT = now(); continue; }
          if (now() - P.LastT > O.WallLimit) {
            killGroup(P.Pid);
            waitpid(P.Pid, &St, 0);
            Hang = true;
          } else continue;
        }
        kill(-P.Pid, SIGKILL);
        P.Live = false;
        --Live;
        Any = true;
        Failure F;
        if (Hang) { F.Class = "hang"; F.Msg = "no progress for " + std::to_string((int)O.WallLimit) + " s"; }
        else F.Class = classify(St, P.Sh, slurp(P.Base + ".log"), F.Msg);
        if (F.Class.empty()) continue;
        F.Index = P.Sh->Index.load();
        F.W = I;
        F.Tape.assign(P.Sh->Tape, P.Sh->Tape + P.Sh->TapeLen);
        uint64_t Cur = S0->Stop.load();
        if (F.Index < Cur) S0->Stop.store(F.Index);
        Fails.push_back(std::move(F));
      }
      if (!Any) usleep(2000);
    }
    // Merge.
    std::unordered_set<uint64_t> Distinct;
    std::vector<std::vector<uint64_t>> Samples;
    uint64_t Done = 0, NonTriv = 0, Mut = 0, Corpus = 0, Edges = 0;
    std::map<std::string, uint64_t> Labels;
    for (auto &P : Ws) {
      Done += P.Sh->Done.load();
      NonTriv += P.Sh->NonTrivial;
      Mut += P.Sh->Mutated;
      Corpus += P.Sh->Corpus;
      Edges = std::max(Edges, P.Sh->Edges);
      for (unsigned I = 0; I < P.Sh->NumLabels; ++I)
        Labels[P.Sh->LabelName[I]] += P.Sh->LabelCount[I];
      std::ifstream F(P.Base + ".dump");
      size_t K = 0;
      F >> K;
      for (size_t I = 0; I < K; ++I) { uint64_t H; F >> H; Distinct.insert(H); }
      K = 0;
      F >> K;
      for (size_t I = 0; I < K; ++I) {
        size_t L = 0;
        F >> L;
        std::vector<uint64_t> T(L);
        for (auto &V : T) F >> V;
        if (Samples.size() < 3) Samples.push_back(std::move(T));
      }
      unlink((P.Base + ".dump").c_str());
      unlink((P.Base + ".log").c_str());
    }
    Done += Fails.size();
    if (Fails.empty() && Done < Cases && now() < Deadline) {
      fprintf(stderr, "%s: workers ended after %llu of %llu cases\n", O.Name,
              (unsigned long long)Done, (unsigned long long)Cases);
      return 3;
    }
    std::sort(Fails.begin(), Fails.end(),
              [](const Failure &A, const Failure &B) { return A.Index < B.Index; });
    std::string FailJs;
    for (auto &F : Fails) {
      // Reproduce in isolation.
      unsigned Ok = 0, Tries = O.NeedRepro ? 3 : 10;
      std::string C2, M2;
      double R0 = now();
      std::string Trace;
      for (unsigned R = 0; R < Tries; ++R) {
        One X = runOne(O, F.Tape, F.Class == "hang");
        if (!X.Class.empty()) { ++Ok; C2 = X.Class; M2 = X.Msg; }
        if (F.Class == "hang") { // takes minutes: seen twice is enough
          Trace = X.Trace;
          if (!X.Class.empty()) Ok = Tries;
          break;
        }
        if (!O.NeedRepro && Ok && now() - R0 > 60) break;
      }
      std::string Mode = "tape";
      std::vector<uint64_t> Best = F.Tape;
      unsigned Attempts = 0;
      if (F.Class == "hang" && Ok) {
        ;
      } else if (Ok == 3 && O.NeedRepro) {
        if (C2 != "hang" && C2 != "cpu-limit")
          Best = shrink(O, F.Tape, C2, getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : gThorough ? 60 : 25, Attempts);
        One X = runOne(O, Best, true);
        Trace = X.Trace;
        // Replay the shrunk case 3 times; fall back to the original tape.
        for (int R = 0; R < 3; ++R) {
          One Y = runOne(O, Best, false);
          if (Y.Class != C2) { Best = F.Tape; break; }
          M2 = Y.Msg;
        }
      } else if (!O.NeedRepro && F.Class != "hang") {
        Mode = Ok ? "tape-schedule" : "observed";
        if (!Ok) { C2 = F.Class; M2 = F.Msg; }
        if (now() - R0 < 60) Trace = runOne(O, Best, true).Trace;
        Trace += "(reproduced in " + std::to_string(Ok) + " of " +
                 std::to_string(Tries) + " replays)\n";
      } else {
        // State carried between cases: replay this worker's whole prefix.
        unsigned Again = 0;
        if (F.Class != "hang") {
          for (int R = 0; R < 3; ++R) {
            Shm *Sh = newShm();
            std::string Base = gTmp + "/prefix";
            uint64_t Save = S0->Stop.load();
            S0->Stop.store(~0ull);
            pid_t P = fork();
            if (P == 0) {
              S = Sh;
              worker(O, F.W, N, Cases, Base, now() + 300, F.Index);
            }
            int St;
            waitpid(P, &St, 0);
            kill(-P, SIGKILL);
            S0->Stop.store(Save);
            std::string M, C = classify(St, Sh, slurp(Base + ".log"), M);
            if (!C.empty()) { ++Again; C2 = C; M2 = M; }
            unlink((Base + ".log").c_str());
            unlink((Base + ".dump").c_str());
            munmap(Sh, sizeof(Shm));
          }
        }
        if (Again < 3) {
          ++Inconclusive;
          if (getenv("PBT_DEBUG")) fprintf(stderr, "unreproduced %s: %s\n", F.Class.c_str(), F.Msg.c_str());
          continue;
        }
        Mode = "prefix";
      }
      AnyFail = true;
      std::string RP = ReplayDir + "/" + O.Name + ".json";
      std::ofstream RF(RP);
      RF << "{\"target\": \"" << O.Name << "\", \"mode\": \"" << Mode
         << "\", \"seed\":" << gSeed << ", \"index\":" << F.Index
         << ",\n\"class\": " << js(C2) << ",\n\"message\": " << js(M2)
         << ",\n\"trace\": " << js(Trace) << ",\n\"tape\": " << jsTape(Best)
         << ",\n\"original_tape_len\":" << F.Tape.size()
         << ", \"shrink_attempts\":" << Attempts << "}\n";
      FailJs = "{\"replay\":" + js(RP) + ",\"class\":" + js(C2) +
               ",\"message\":" + js(M2.substr(0, 3000)) + ",\"trace\":" +
               js(Trace.substr(0, 4000)) + "}";
      break;
    }
    Js << (FirstT ? "" : ",") << "\n{\"name\":" << js(O.Name)
       << ",\"cases\":" << Done << ",\"planned\":" << Cases
       << ",\"nontrivial\":" << NonTriv
       << ",\"distinct_nontrivial\":" << Distinct.size()
       << ",\"mutated\":" << Mut << ",\"corpus\":" << Corpus
       << ",\"edges\":" << Edges << ",\"unreproduced\":" << Inconclusive
       << ",\"wall_s\":" << (now() - T0) << ",\"labels\":{";
    bool F1 = true;
    for (auto &L : Labels) {
      Js << (F1 ? "" : ",") << js(L.first) << ":" << L.second;
      F1 = false;
    }
    Js << "},\"samples\":[";
    F1 = true;
    if (Fails.empty())
      for (auto &T : Samples) {
        One X = runOne(O, T, true);
        if (X.Trace.size() > 1500) X.Trace.resize(1500);
        Js << (F1 ? "" : ",") << js(X.Trace);
        F1 = false;
      }
    Js << "]";
    if (!FailJs.empty()) Js << ",\"failure\":" << FailJs;
    Js << "}";
    FirstT = false;
    for (auto &P : Ws) munmap(P.Sh, sizeof(Shm));
    if (!FailJs.empty()) break;
  }
  Js << "]}\n";
  unlink((gTmp + "/one.log").c_str());
  if (!Out.empty()) {
    std::ofstream F(Out);
    F << Js.str();
  } else
    fputs(Js.str().c_str(), stdout);
  if (OwnTmp) rmdir(gTmp.c_str());
  return AnyFail ? 1 : 0;
}
} // namespace pbt

int main(int argc, char **argv) { return pbt::mainImpl(argc, argv); }
