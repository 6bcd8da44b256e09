//===- pbt_net.h - simulated network under the deterministic scheduler ----===//
// The socket functions are replaced by ones that work on connections in the
// memory of the process; they block through the scheduler. How much recv()
// returns, and which call fails, are choices of the case.
#ifndef PBT_NET_H
#define PBT_NET_H
#include "pbt_sched.h"
#include <deque>
#include <list>
#include <string>
#include <vector>

namespace net {
struct Stop {}; // thrown by accept() when there are no more clients

struct Conn {
  unsigned Client; // number of the client
  int CliPort = 0;
  int Fd = -1;
  // From the client to the server.
  std::string In;      // not received yet
  bool Fin = false;    // nothing follows
  bool Gone = false;   // the client has closed both directions
  bool Reset = false;
  std::vector<std::string> Chunks; // as recv() has returned them
  bool Eof = false;    // recv() has returned 0
  bool RecvError = false;
  // From the server to the client.
  std::string Out;     // not read by the client yet
  std::vector<std::string> Sends; // complete messages
  bool SendFailed = false;
  bool Broken = false; // every send() fails
  unsigned Raised = 0; // SIGPIPE
  bool Closed = false, CloseFailed = false, Refused = false;
  int Accepted = 0;    // position in the order of acceptance, from 1
  bool NoThread = false, NoEngine = false; // a thread of the server or the application cannot be started
};

/// Calls that can fail.
enum Call { CallNone, CallSocket, CallOption, CallBind, CallName, CallListen, CallHost };

struct Net {
  // Choices.
  Call FailStart = CallNone; // the call that fails at start
  unsigned SendFault = 0, RecvFault = 0, AcceptFault = 0, NameFault = 0, CloseFault = 0, ThreadFault = 0; // of 1000
  bool Partial = false;      // send() may take a part of the message
  // State.
  std::list<Conn> Conns;
  std::deque<Conn *> Backlog;
  Conn *Latest = nullptr; // accepted
  bool Listening = false, ListenClosed = false, Bound = false;
  int ListenFd = -1, Port = 0;
  unsigned Addr = 0; // in host order
  unsigned Clients = 0, Finished = 0, AcceptErrors = 0, NameErrors = 0, NextPort = 50000;
  unsigned Active = 0, MaxActive = 0, Accepts = 0;
  /// Connection used by a thread of the server.
  std::vector<Conn *> ByThread;
  Conn *current();
};
/// The network of the running case.
extern Net *N;
void begin(Net &);
void end();

// The side of a client; called on its thread.
Conn *connect(unsigned Client);
void write(Conn *C, const std::string &S);
/// Waits until there are at least Count bytes or there will be no more.
std::string read(Conn *C, size_t Count);
void shutdown(Conn *C);
void close(Conn *C);
void reset(Conn *C);
} // namespace net
#endif
