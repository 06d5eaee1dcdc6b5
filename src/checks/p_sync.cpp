// P14: document synchronisation, on applyChange, DraftStore and the real
// Controller, against a reference editor.
#include "checks/textref.h"
#include "ctl/session.h"
#include "mc/mc.h"
#include "lspserver/DraftStore.h"
#include "lspserver/SourceCode.h"

using mc::Ctx;
using mc::Str;
using namespace llvm::json;
namespace {
enum { CChanges, CRefused, CHist, CCompared, CDrafts };
bool Quick = true;

struct Chg {
  bool Full = false;
  int64_t L0 = 0, C0 = 0, L1 = 0, C1 = 0;
  Str Text;
  bool HasLen = false;
  int64_t Len = 0;
  Str show() const {
    return Full ? "whole " + mc::jesc(Text)
                : std::to_string(L0) + ":" + std::to_string(C0) + "-" + std::to_string(L1) + ":" + std::to_string(C1) + " " + mc::jesc(Text) +
                      (HasLen ? " length " + std::to_string(Len) : "");
  }
  Object json() const {
    if (Full) return Object{{"text", Text}};
    Object O{{"range", cs::range(L0, C0, L1, C1)}, {"text", Text}};
    if (HasLen) O["rangeLength"] = Len;
    return O;
  }
};
/// The reference editor. Returns the texts that the change may give: none if it
/// does not fit. The server is documented to take the start of the line after
/// an unterminated last line as the end of a text with that newline added.
std::vector<Str> edit(const Str &T, const Chg &C) {
  if (C.Full) return {C.Text};
  auto Try = [&](const Str &X) -> std::optional<Str> {
    auto A = tr::offset(X, C.L0, C.C0, false), B = tr::offset(X, C.L1, C.C1, false);
    if (A.empty() || B.empty() || B[0] < A[0]) return std::nullopt;
    if (C.HasLen && C.Len != (int64_t)tr::units(X.substr(A[0], B[0] - A[0]))) return std::nullopt;
    return X.substr(0, A[0]) + C.Text + X.substr(B[0]);
  };
  if (auto R = Try(T)) return {*R};
  if (T.empty() || T.back() != '\n') {
    int64_t N = tr::lines(T).size();
    if ((C.L0 == N && C.C0 == 0) || (C.L1 == N && C.C1 == 0))
      if (auto R = Try(T + "\n")) return {*R, "\x01refused"};
  }
  return {};
}

void evalApply(Ctx &X, const Str &T) {
  auto Ls = tr::lines(T);
  std::vector<std::pair<int64_t, int64_t>> Ps;
  for (int64_t L = -1; L <= (int64_t)Ls.size() + 1; ++L) {
    int64_t W = L >= 0 && L < (int64_t)Ls.size() ? tr::units(Ls[L]) : 0;
    for (int64_t C = -1; C <= W + 1; ++C) Ps.push_back({L, C});
  }
  for (auto &A : Ps)
    for (auto &B : Ps)
      for (const char *New : {"", "x", "\xc3\xa9\n\xf0\x9f\x98\x80"})
        for (int Len = 0; Len < 3; ++Len) {
          Chg C{false, A.first, A.second, B.first, B.second, New};
          if (Len) {
            auto O = tr::offset(T, A.first, A.second, false), P = tr::offset(T, B.first, B.second, false);
            C.HasLen = true;
            C.Len = (O.empty() || P.empty() || P[0] < O[0] ? 0 : tr::units(T.substr(O[0], P[0] - O[0]))) + (Len - 1);
          }
          X.add(CChanges);
          lspserver::TextDocumentContentChangeEvent E;
          E.range = lspserver::Range{{(int)C.L0, (int)C.C0}, {(int)C.L1, (int)C.C1}};
          if (C.HasLen) E.rangeLength = C.Len;
          E.text = C.Text;
          Str G = T;
          auto Err = lspserver::applyChange(G, E);
          auto Want = edit(T, C);
          if (Err) {
            llvm::consumeError(std::move(Err));
            X.add(CRefused);
            if (!Want.empty() && Want.back() != "\x01refused") X.fail("refused", "change " + C.show());
          } else if (Want.empty())
            X.fail("accepted", "change " + C.show() + " gives " + mc::jesc(G));
          else if (G != Want[0])
            X.fail("text", "change " + C.show() + " gives " + mc::jesc(G) + ", is " + mc::jesc(Want[0]));
        }
}

// ---- histories
const char *Uris[] = {"file:///w/a.nix", "file:///w/b.nix"};
/// What a client can see of a document.
Str answers(cs::Session &S, const char *Uri, bool Diags) {
  Object P{{"textDocument", Object{{"uri", Uri}}}};
  Str R;
  if (Diags) {
    const Value *Last = nullptr;
    for (auto &M : S.Out)
      if (auto *O = M.getAsObject())
        if (O->getString("method") == llvm::StringRef("textDocument/publishDiagnostics"))
          if (auto *Q = O->getObject("params"); Q && Q->getString("uri") == llvm::StringRef(Uri)) Last = Q->get("diagnostics");
    R += "diagnostics " + (Last ? cs::show(*Last) : Str("none")) + "\n";
  }
  for (const char *M : {"textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/semanticTokens/full"})
    R += Str(M) + " " + cs::show(S.result(M, Object(P))) + "\n";
  Object Q = P;
  Q["range"] = cs::range(0, 0, 9, 0);
  Q["context"] = Object{{"diagnostics", Array{}}};
  R += "codeAction " + cs::show(S.result("textDocument/codeAction", std::move(Q))) + "\n";
  return R;
}
/// The answers of a fresh server on a text ("": not open).
const Str &freshAnswers(const char *Uri, const std::optional<Str> &T) {
  static std::unordered_map<Str, Str> Memo;
  Str K = Str(Uri) + (T ? "+" + *T : "-");
  auto It = Memo.find(K);
  if (It != Memo.end()) return It->second;
  if (Memo.size() > 50000) Memo.clear();
  cs::Session S;
  if (T) S.open(Uri, *T);
  else S.close(Uri);
  return Memo[K] = answers(S, Uri, true);
}

const std::vector<Str> Texts = {
    "{ a = 1; }", "let\n  x = \"\xc3\xa9\"; in [\n\xf0\x9f\x98\x80 x\n]\n", "", "\"\xf0\x9f\x98\x80\"\r\n",
};
// Edits, as operations on whatever text is open.
struct Op {
  char Kind; ///< o open, c change, x close
  int Doc;
  int Text = 0;
  std::vector<Chg> Ch;
  bool Version = true;
  Str Name;
};
std::vector<Op> Ops;
void makeOps() {
  auto R = [](int64_t A, int64_t B, int64_t C, int64_t D, Str T, int64_t Len = -1) {
    Chg X{false, A, B, C, D, std::move(T)};
    if (Len >= 0) X.HasLen = true, X.Len = Len;
    return X;
  };
  auto F = [](Str T) {
    Chg X;
    X.Full = true;
    X.Text = std::move(T);
    return X;
  };
  for (int D : {0, 1}) {
    for (int T = 0; T < (int)Texts.size(); ++T)
      if (!D || T < 1) Ops.push_back({'o', D, T});
    std::vector<std::vector<Chg>> Cs = {
        {R(0, 0, 0, 0, "[ ")},                                  // insert at the start
        {R(0, 2, 0, 3, "\xf0\x9f\x98\x80y", 1)},                // replace one unit
        {R(0, 0, 1, 0, "rec {\n")},                             // a whole line
        {R(1, 0, 1, 0, "# \xc3\xa9\n")},                        // may be the line after the last
        {R(0, 1, 0, 1, "\""), R(0, 2, 0, 2, "b\"")},            // second refers to the text after the first
        {F("{ b = 2; }")},
        {F("x\n"), R(1, 0, 1, 0, "y"), R(0, 1, 1, 0, " ")},     // three in a row
        {R(0, 1, 0, 1, "z"), R(7, 0, 7, 0, "bad")},             // second does not fit
        {R(0, 3, 0, 1, "bad")},                                 // reversed
        {R(0, 0, 0, 1, "", 5)},                                 // wrong length
        {R(2, 0, 2, 1, "w", 2), R(2, 0, 2, 0, "v")},            // surrogates: does not fit anywhere else
        {},
    };
    for (size_t I = 0; I < Cs.size(); ++I)
      if (!D || I == 1 || I == 5 || I == 8) Ops.push_back({'c', D, 0, Cs[I]});
    Ops.push_back({'x', D});
  }
  Ops.push_back({'c', 0, 0, {R(0, 1, 0, 1, "q")}, false}); // without a version
  for (auto &O : Ops) {
    O.Name = Str(1, O.Kind) + (O.Doc ? "b" : "a");
    if (O.Kind == 'o') O.Name += " " + mc::jesc(Texts[O.Text]);
    for (auto &C : O.Ch) O.Name += " " + C.show();
    if (!O.Version) O.Name += " no version";
  }
}

// Case: letters, one per operation.
void evalHist(Ctx &X, const Str &T) {
  X.add(CHist);
  cs::Session S;
  std::optional<Str> Doc[2];
  std::vector<std::optional<Str>> May[2];
  Str Done;
  int64_t V = 0;
  for (unsigned char Ch : T) {
    const Op &O = Ops[Ch - '0'];
    Done += (Done.empty() ? "" : "; ") + O.Name;
    const char *U = Uris[O.Doc];
    auto &D = Doc[O.Doc];
    size_t From = S.Out.size();
    ++V;
    std::vector<std::optional<Str>> Next; // what the document may be now
    bool Bad = false;
    if (O.Kind == 'o') {
      Next = {Texts[O.Text]};
      S.open(U, Texts[O.Text], V);
    } else if (O.Kind == 'x') {
      Next = {std::nullopt};
      S.close(U);
    } else {
      if (!D) Next = {std::nullopt};
      else {
        Str Cur = *D;
        Next = {};
        bool Maybe = false;
        for (auto &C : O.Ch) {
          auto R = edit(Cur, C);
          if (R.empty()) {
            Bad = true;
            break;
          }
          if (R.size() > 1) Maybe = true;
          Cur = R[0];
        }
        if (!Bad) Next.push_back(Cur);
        if (Bad || Maybe) Next.push_back(std::nullopt), Next.push_back(*D);
      }
      Array Cs;
      for (auto &C : O.Ch) Cs.push_back(C.json());
      Object Td{{"uri", U}};
      if (O.Version) Td["version"] = V;
      else Td["version"] = nullptr;
      S.notify("textDocument/didChange", Object{{"textDocument", std::move(Td)}, {"contentChanges", std::move(Cs)}});
    }
    if (!S.Thrown.empty()) return X.fail("exception", S.Thrown + " after " + Done);
    if (!S.Alive) return X.fail("session", "ended after " + Done);
    if (!S.Broken.empty()) return X.fail("framing", S.Broken + " after " + Done);
    // published versions
    for (size_t I = From; I < S.Out.size(); ++I)
      if (auto *M = S.Out[I].getAsObject(); M && M->getString("method") == llvm::StringRef("textDocument/publishDiagnostics"))
        if (auto *P = M->getObject("params")) {
          if (P->getString("uri") != llvm::StringRef(U)) X.fail("published", "for another document after " + Done);
          auto Ver = P->getInteger("version");
          if (Ver && *Ver != V) X.fail("version", "published " + std::to_string(*Ver) + " after version " + std::to_string(V) + ": " + Done);
        }
    for (int I = 0; I < 2; ++I) {
      bool Mine = I == O.Doc;
      Str G = answers(S, Uris[I], false);
      // the other document must not have changed at all
      auto Cands = Mine ? Next : std::vector<std::optional<Str>>{Doc[I]};
      X.add(CCompared);
      bool Ok = false;
      for (auto &C : Cands) {
        const Str &W = freshAnswers(Uris[I], C);
        if (W.substr(W.find('\n') + 1) != G) continue;
        Ok = true;
        if (Mine) D = C;
        break;
      }
      if (!Ok) {
        Str W = freshAnswers(Uris[I], Cands[0]);
        return X.fail("answers", Str("of ") + (I ? "b" : "a") + " after " + Done + ": " + G + " where the text is " + (Cands[0] ? mc::jesc(*Cands[0]) : "not open") + ": " + W.substr(W.find('\n') + 1));
      }
      // diagnostics of the last publication
      if (Mine) {
        const Str &W = freshAnswers(Uris[I], Doc[I]);
        Str Last = answers(S, Uris[I], true);
        Last = Last.substr(0, Last.find('\n'));
        Str WL = W.substr(0, W.find('\n'));
        bool Never = Last == "diagnostics none";
        if (Last != WL && !(Never && !Doc[I])) X.fail("diagnostics", Last + " where they are " + WL + " after " + Done);
      }
    }
    S.reset();
  }
}

// Versions given by the store. Case: letters: 0-4 add with version "", "1", "5", "9", "10"; r remove
void evalDrafts(Ctx &X, const Str &T) {
  X.add(CDrafts);
  lspserver::DraftStore S;
  const char *Vs[] = {"", "1", "5", "9", "10", "-1", "099"};
  std::optional<Str> Have, Ver;
  int N = 0;
  for (char C : T) {
    if (C == 'r') {
      S.removeDraft("/a");
      Have = Ver = std::nullopt;
    } else {
      Str V = Vs[C - '0'], Text = "t" + std::to_string(++N);
      Str G = S.addDraft("/a", V, Text);
      if (!V.empty()) {
        if (G != V) X.fail("version", "added with " + V + ", stored as " + G);
      } else {
        auto A = lspserver::DraftStore::decodeVersion(G);
        auto B = Ver ? lspserver::DraftStore::decodeVersion(*Ver) : std::optional<int64_t>();
        if (Ver && *Ver != "-1" && (!A || (B && *A != *B + 1))) X.fail("version", "after " + *Ver + " comes " + G);
      }
      Have = Text, Ver = G;
    }
    auto D = S.getDraft("/a");
    if (!!D != !!Have) X.fail("draft", Have ? "lost" : "still there");
    else if (D && (*D->Contents != *Have || D->Version != *Ver)) X.fail("draft", *D->Contents + " version " + D->Version);
    if (S.getDraft("/b")) X.fail("draft", "another file has one");
    auto F = S.getActiveFiles();
    if (F.size() != (Have ? 1u : 0u)) X.fail("draft", "active files");
  }
}
} // namespace

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  mc::Check C(argv[1], argc - 1, argv + 1);
  Quick = C.quick();
  cs::quiet();
  makeOps();
  C.Counters = {"changes applied", "changes refused", "histories", "answers compared", "draft sequences"};
  std::vector<Str> Al = {"a", "\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "\r"};
  C.Spaces.push_back(mc::seqSpace("changes", "all texts over ASCII, LF, CR, two- and four-byte characters; every range over existing and non-existing positions, three replacements, with correct, wrong and no length", Al, 0, C.quick() ? 5 : 7));
  std::vector<Str> L;
  for (size_t I = 0; I < Ops.size(); ++I) L.push_back(Str(1, char('0' + I)));
  C.Spaces.push_back(mc::seqSpace("histories", "all sequences of open, change and close notifications on two documents, with single, multiple, full, misfitting and unversioned changes", L, 1, C.quick() ? 4 : 5));
  C.Spaces.push_back(mc::seqSpace("drafts", "all sequences of draft additions with and without versions, and removals", {"0", "1", "2", "3", "4", "6", "r"}, 1, 5));
  C.Eval = [](Ctx &X, const Str &Space, const Str &T) {
    if (Space == "changes") evalApply(X, T);
    else if (Space == "drafts") evalDrafts(X, T);
    else evalHist(X, T);
  };
  C.Rule = "every change of every text through the real applyChange against a reference editor; every history through the real Controller, whose answers for both documents are compared after every notification with those of a fresh server that is opened on the reference text";
  C.Assumptions = {"positions count UTF-16 code units and lines end at LF; the start of the line after an unterminated last line may be taken as the end of the text with a newline added (documented leniency)",
                   "a change that does not fit may drop the document or leave it as it was"};
  return C.run();
}
