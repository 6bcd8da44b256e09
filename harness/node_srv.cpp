// C26: the server of the add-on under test. It does what the plan in
// BCL_PLAN says and writes what it sees to descriptor 3.
#include <bcl/Socket.h>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
void put(const std::string &L) {
  std::string S = L + "\n";
  for (size_t I = 0; I < S.size();) {
    ssize_t N = write(3, S.data() + I, S.size() - I);
    if (N <= 0) _exit(9);
    I += N;
  }
}
std::string hex(const std::string &S) {
  static const char D[] = "0123456789abcdef";
  std::string R = "x";
  for (unsigned char C : S) R += {D[C >> 4], D[C & 15]};
  return R;
}
std::string unhex(const std::string &S) {
  std::string R;
  for (size_t I = 0; I + 1 < S.size(); I += 2) R += (char)strtol(S.substr(I, 2).c_str(), nullptr, 16);
  return R;
}
std::vector<std::string> split(const std::string &S, char D) {
  std::vector<std::string> R;
  std::istringstream I(S);
  for (std::string X; std::getline(I, X, D);) R.push_back(X);
  return R;
}
struct Server {
  std::string C;
  const bcl::Socket<std::string> *S;
  int NextR = 0, NextC = 0;
  ~Server() { put("F " + C); }
};
using Ptr = std::shared_ptr<Server>;
void onClose(Ptr P) {
  int Id = P->NextC++;
  P->S->closed([P, Id](bool E) { put("C " + P->C + " " + std::to_string(Id) + " " + (E ? "1" : "0")); });
}
void onData(Ptr P, std::vector<std::string> Acts) {
  int Id = P->NextR++;
  P->S->receive([P, Id, Acts](const std::string &M) {
    if (!Acts.empty() && Acts[0] == "q") return;
    put("R " + P->C + " " + std::to_string(Id) + " " + hex(M));
    for (auto &A : Acts)
      if (A[0] == 's') P->S->send(unhex(A.substr(1)));
      else if (A[0] == 'l') P->S->send(std::to_string(M.size()));
      else if (A[0] == 'e') P->S->send(M);
      else if (A[0] == 'n') onData(P, {"l"});
      else if (A[0] == 'k') onClose(P);
  });
}
}
namespace bcl {
template <> BCL_DECLSPEC void createServer(const Socket<std::string> *S) {
  auto Items = split(getenv("BCL_PLAN"), ':');
  auto P = std::make_shared<Server>();
  P->C = Items[0];
  P->S = S;
  put("B " + P->C);
  for (size_t I = 1; I < Items.size(); ++I) {
    auto &X = Items[I];
    if (X[0] == 'S') S->send(unhex(X.substr(1)));
    else if (X[0] == 'C') onClose(P);
    else if (X[0] == 'R') onData(P, split(X.substr(1), '.'));
  }
}
}
