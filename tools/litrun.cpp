// Plays one of the project's Markdown session tests (as `nixd --lit-test` does)
// against the Controller of /repo; used by hand to confirm that fixes keep the
// pinned output. Workers answer null.
#include "ctl/session.h"
#include <iostream>
#include <unistd.h>
int main() {
  cs::quiet();
  std::string Buf;
  lspserver::InboundPort In(0, lspserver::JSONStreamStyle::LitTest);
  {
    nixd::Controller C(std::make_unique<lspserver::InboundPort>(-1), std::make_unique<lspserver::OutboundPort>(llvm::outs(), true));
    while (true) {
      auto M = In.readMessage(Buf);
      if (!M) {
        auto E = M.takeError();
        bool P = E.isA<llvm::json::ParseError>();
        llvm::consumeError(std::move(E));
        if (P) continue;
        break;
      }
      bool Go = In.dispatch(std::move(*M), C);
      while (!mcpool::Queue.empty()) {
        auto T = std::move(mcpool::Queue.front());
        mcpool::Queue.pop_front();
        T();
      }
      llvm::outs().flush();
      if (!Go) break;
    }
  }
  llvm::outs().flush();
  _exit(0);
}
