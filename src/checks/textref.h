// Reference for texts, positions and URIs. Independent of the code under test.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
namespace tr {
using Str = std::string;
/// length of the well-formed UTF-8 sequence at I, 0 if there is none
inline size_t seq(const Str &T, size_t I) {
  auto B = [&](size_t J) -> unsigned { return J < T.size() ? (unsigned char)T[J] : 0; };
  unsigned A = B(I);
  auto Cont = [&](size_t J) { return J < T.size() && (B(J) & 0xC0) == 0x80; };
  if (A < 0x80) return 1;
  if (A >= 0xC2 && A <= 0xDF) return Cont(I + 1) ? 2 : 0;
  if (A >= 0xE0 && A <= 0xEF) {
    if (!Cont(I + 1) || !Cont(I + 2)) return 0;
    if (A == 0xE0 && B(I + 1) < 0xA0) return 0;
    if (A == 0xED && B(I + 1) > 0x9F) return 0;
    return 3;
  }
  if (A >= 0xF0 && A <= 0xF4) {
    if (!Cont(I + 1) || !Cont(I + 2) || !Cont(I + 3)) return 0;
    if (A == 0xF0 && B(I + 1) < 0x90) return 0;
    if (A == 0xF4 && B(I + 1) > 0x8F) return 0;
    return 4;
  }
  return 0;
}
inline bool utf8(const Str &T) {
  for (size_t I = 0; I < T.size();) {
    size_t N = seq(T, I);
    if (!N) return false;
    I += N;
  }
  return true;
}
/// UTF-16 code units of valid text
inline size_t units(const Str &T) {
  size_t N = 0;
  for (size_t I = 0; I < T.size(); I += seq(T, I)) N += seq(T, I) == 4 ? 2 : 1;
  return N;
}
inline bool boundary(const Str &T, size_t O) { return O >= T.size() || ((unsigned char)T[O] & 0xC0) != 0x80; }
inline std::vector<Str> lines(const Str &T) {
  std::vector<Str> R{""};
  for (char C : T)
    if (C == '\n') R.push_back("");
    else R.back() += C;
  return R;
}
inline int64_t lineOf(const Str &T, size_t O) {
  int64_t N = 0;
  for (size_t I = 0; I < O; ++I) N += T[I] == '\n';
  return N;
}
inline std::pair<int64_t, int64_t> position(const Str &T, size_t O) {
  size_t B = O;
  while (B > 0 && T[B - 1] != '\n') --B;
  Str L = T.substr(B, O - B);
  return {lineOf(T, O), (int64_t)(utf8(L) ? units(L) : L.size())};
}
/// The offsets a position may have: none if it is refused.
inline std::vector<size_t> offset(const Str &T, int64_t L, int64_t Ch, bool Lenient) {
  if (L < 0 || Ch < 0) return {};
  auto Ls = lines(T);
  if (L >= (int64_t)Ls.size()) return {};
  size_t B = 0;
  for (int64_t I = 0; I < L; ++I) B += Ls[I].size() + 1;
  const Str &Ln = Ls[L];
  int64_t U = 0;
  size_t I = 0;
  while (I < Ln.size() && U < Ch) {
    size_t N = seq(Ln, I);
    int64_t W = N == 4 ? 2 : 1;
    if (U + W > Ch) { // inside a surrogate pair
      if (Lenient) return {B + I, B + I + N};
      return {};
    }
    U += W;
    I += N;
  }
  if (U == Ch || Lenient) return {B + I};
  return {};
}
struct Uri {
  bool Ok = false;
  Str Scheme, Authority, Body;
};
inline int hex(char C) {
  if (C >= '0' && C <= '9') return C - '0';
  if (C >= 'a' && C <= 'f') return C - 'a' + 10;
  if (C >= 'A' && C <= 'F') return C - 'A' + 10;
  return -1;
}
inline Str decode(const Str &S) {
  Str R;
  for (size_t I = 0; I < S.size(); ++I)
    if (S[I] == '%' && I + 2 < S.size() && hex(S[I + 1]) >= 0 && hex(S[I + 2]) >= 0) {
      R += (char)(hex(S[I + 1]) * 16 + hex(S[I + 2]));
      I += 2;
    } else
      R += S[I];
  return R;
}
inline Uri uri(const Str &T) {
  Uri U;
  auto C = T.find(':');
  if (C == Str::npos) return U;
  U.Scheme = decode(T.substr(0, C));
  auto Al = [](char X) { return (X >= 'a' && X <= 'z') || (X >= 'A' && X <= 'Z'); };
  if (U.Scheme.empty() || !Al(U.Scheme[0])) return U;
  for (char X : U.Scheme)
    if (!Al(X) && !(X >= '0' && X <= '9') && X != '+' && X != '.' && X != '-') return U;
  Str R = T.substr(C + 1);
  if (R.rfind("//", 0) == 0) {
    auto P = R.find('/', 2);
    U.Authority = decode(R.substr(2, P == Str::npos ? Str::npos : P - 2));
    R = P == Str::npos ? "" : R.substr(P);
  }
  U.Body = decode(R);
  U.Ok = true;
  return U;
}
} // namespace tr
