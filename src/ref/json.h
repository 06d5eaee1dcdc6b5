// A strict JSON reader (RFC 8259), written independently of the libraries the
// code under test uses. Strings are UTF-8; invalid UTF-8, bare control
// characters, trailing text, leading zeros and lone surrogates are rejected.
#pragma once
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace rj {
enum Kind { Null, Bool, Num, Str, Arr, Obj };
struct V {
  Kind k = Null;
  bool b = false;
  std::string s; // string value, or the text of a number
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> o;
  const V *get(std::string_view K) const {
    const V *R = nullptr;
    for (auto &[X, Y] : o)
      if (X == K) R = &Y;
    return R;
  }
  long long num() const { return std::stoll(s); }
  bool isInt() const { return k == Num && s.find_first_of(".eE") == std::string::npos; }
};
struct Err : std::runtime_error {
  using runtime_error::runtime_error;
};
class Reader {
  std::string_view S;
  size_t P = 0;
  int Depth = 0;
  [[noreturn]] void bad(const char *M) { throw Err(std::string(M) + " at " + std::to_string(P)); }
  void ws() {
    while (P < S.size() && (S[P] == ' ' || S[P] == '\t' || S[P] == '\n' || S[P] == '\r')) ++P;
  }
  bool eat(char C) {
    if (P < S.size() && S[P] == C) return ++P, true;
    return false;
  }
  static void put(std::string &O, uint32_t C) {
    if (C < 0x80) O += char(C);
    else if (C < 0x800) O += char(0xC0 | C >> 6), O += char(0x80 | (C & 63));
    else if (C < 0x10000) O += char(0xE0 | C >> 12), O += char(0x80 | (C >> 6 & 63)), O += char(0x80 | (C & 63));
    else O += char(0xF0 | C >> 18), O += char(0x80 | (C >> 12 & 63)), O += char(0x80 | (C >> 6 & 63)), O += char(0x80 | (C & 63));
  }
  uint32_t hex4() {
    uint32_t R = 0;
    for (int I = 0; I < 4; ++I) {
      if (P >= S.size()) bad("short \\u");
      char C = S[P++];
      R = R * 16 + (C >= '0' && C <= '9' ? C - '0' : C >= 'a' && C <= 'f' ? C - 'a' + 10 : C >= 'A' && C <= 'F' ? C - 'A' + 10 : (bad("bad \\u"), 0));
    }
    return R;
  }
  std::string str() {
    std::string O;
    while (true) {
      if (P >= S.size()) bad("unterminated string");
      unsigned char C = S[P];
      if (C == '"') return ++P, O;
      if (C < 0x20) bad("control character");
      if (C == '\\') {
        if (++P >= S.size()) bad("escape");
        char E = S[P++];
        switch (E) {
        case '"': case '\\': case '/': O += E; break;
        case 'b': O += '\b'; break;
        case 'f': O += '\f'; break;
        case 'n': O += '\n'; break;
        case 'r': O += '\r'; break;
        case 't': O += '\t'; break;
        case 'u': {
          uint32_t U = hex4();
          if (U >= 0xD800 && U < 0xDC00) {
            if (!eat('\\') || !eat('u')) bad("lone surrogate");
            uint32_t L = hex4();
            if (L < 0xDC00 || L > 0xDFFF) bad("lone surrogate");
            U = 0x10000 + ((U - 0xD800) << 10) + (L - 0xDC00);
          } else if (U >= 0xDC00 && U < 0xE000) bad("lone surrogate");
          put(O, U);
          break;
        }
        default: bad("escape");
        }
        continue;
      }
      int N = C < 0x80 ? 1 : C >= 0xC2 && C < 0xE0 ? 2 : C >= 0xE0 && C < 0xF0 ? 3 : C >= 0xF0 && C < 0xF5 ? 4 : 0;
      if (!N || P + N > S.size()) bad("invalid UTF-8");
      uint32_t U = N == 1 ? C : C & (0xFF >> (N + 1));
      for (int I = 1; I < N; ++I) {
        unsigned char D = S[P + I];
        if ((D & 0xC0) != 0x80) bad("invalid UTF-8");
        U = U << 6 | (D & 63);
      }
      if ((N == 3 && (U < 0x800 || (U >= 0xD800 && U < 0xE000))) || (N == 4 && (U < 0x10000 || U > 0x10FFFF))) bad("invalid UTF-8");
      O.append(S.substr(P, N));
      P += N;
    }
  }
  V val() {
    if (++Depth > 2000) bad("too deep");
    ws();
    V R;
    if (P >= S.size()) bad("value expected");
    char C = S[P];
    if (C == '{') {
      ++P;
      R.k = Obj;
      ws();
      if (!eat('}'))
        while (true) {
          ws();
          if (!eat('"')) bad("key expected");
          std::string K = str();
          ws();
          if (!eat(':')) bad(": expected");
          R.o.emplace_back(std::move(K), val());
          ws();
          if (eat('}')) break;
          if (!eat(',')) bad(", expected");
        }
    } else if (C == '[') {
      ++P;
      R.k = Arr;
      ws();
      if (!eat(']'))
        while (true) {
          R.a.push_back(val());
          ws();
          if (eat(']')) break;
          if (!eat(',')) bad(", expected");
        }
    } else if (C == '"') {
      ++P;
      R.k = Str;
      R.s = str();
    } else if (C == '-' || (C >= '0' && C <= '9')) {
      R.k = Num;
      size_t B = P;
      auto dig = [&] {
        size_t Q = P;
        while (P < S.size() && S[P] >= '0' && S[P] <= '9') ++P;
        if (P == Q) bad("digit expected");
      };
      eat('-');
      if (!eat('0')) dig();
      if (eat('.')) dig();
      if (P < S.size() && (S[P] == 'e' || S[P] == 'E')) {
        ++P;
        if (!eat('+')) eat('-');
        dig();
      }
      R.s = S.substr(B, P - B);
    } else {
      auto lit = [&](std::string_view L) { return S.substr(P, L.size()) == L ? (P += L.size(), true) : false; };
      if (lit("true")) R.k = Bool, R.b = true;
      else if (lit("false")) R.k = Bool;
      else if (!lit("null")) bad("value expected");
    }
    --Depth;
    return R;
  }

public:
  explicit Reader(std::string_view S) : S(S) {}
  V all() {
    V R = val();
    ws();
    if (P != S.size()) bad("trailing text");
    return R;
  }
};
inline V read(std::string_view S) { return Reader(S).all(); }
inline bool read(std::string_view S, V &O, std::string &Why) {
  try {
    O = read(S);
    return true;
  } catch (Err &E) {
    Why = E.what();
    return false;
  }
}
/// Canonical text: keys sorted, shortest escapes. Numbers keep their text.
inline std::string show(const V &X) {
  switch (X.k) {
  case Null: return "null";
  case Bool: return X.b ? "true" : "false";
  case Num: return X.s;
  case Str: {
    std::string R = "\"";
    for (unsigned char C : X.s) {
      if (C == '"' || C == '\\') R += '\\', R += C;
      else if (C < 0x20) {
        char B[8];
        snprintf(B, sizeof B, "\\u%04x", C);
        R += B;
      } else R += C;
    }
    return R + "\"";
  }
  case Arr: {
    std::string R = "[";
    for (auto &E : X.a) R += (R.size() > 1 ? "," : "") + show(E);
    return R + "]";
  }
  case Obj: {
    auto O = X.o;
    for (size_t I = 1; I < O.size(); ++I)
      for (size_t J = I; J && O[J].first < O[J - 1].first; --J) std::swap(O[J], O[J - 1]);
    std::string R = "{";
    for (auto &[K, E] : O) {
      V S;
      S.k = Str;
      S.s = K;
      R += (R.size() > 1 ? "," : "") + show(S) + ":" + show(E);
    }
    return R + "}";
  }
  }
  return "";
}
} // namespace rj
