// P20: Base64 coding stays inside its buffers, whatever the text or the list.
#include <memory>
#include "bezman/src/utils/base64.hpp"
#include "b64ref.hpp"
#include "framework.hpp"
using namespace vf;
namespace bz = bezman;
using B64 = bz::utils::Base64;
struct Rec5 { unsigned char x[5]; };
struct Rec12 { int32_t x[3]; };

std::string hostile(Ctx& c, int& kind) {
  const size_t g = c.rng.chance(0.15) ? c.rng.below(2) : c.rng.range(1, c.rng.chance(0.1) ? 200 : 14);
  std::string s(g * 4, 'A');
  kind = (int)c.rng.below(8);
  switch (kind) {
    case 0: {  // canonical text of some bytes
      std::string raw(c.rng.below(g * 3 + 1), 0);
      for (auto& x : raw) x = (char)c.rng.u64();
      s = b64enc(raw);
      break;
    }
    case 1: for (auto& x : s) x = (char)c.rng.u64(); break;                        // any byte
    case 2: for (auto& x : s) x = (char)(128 + c.rng.below(128)); break;           // only non-ASCII
    case 3: for (auto& x : s) x = '='; break;
    case 4:                                                                        // padding in odd places
      for (auto& x : s) x = B64_ALPHABET[c.rng.below(64)];
      if (g) for (size_t k = c.rng.range(1, 4); k--;) s[c.rng.below(s.size())] = '=';
      break;
    case 5:  // non-canonical trailing bits, full alphabet
      for (auto& x : s) x = B64_ALPHABET[c.rng.below(64)];
      if (g) { s[s.size() - 1] = '='; if (c.rng.chance(0.5)) s[s.size() - 2] = '='; }
      break;
    case 6: for (auto& x : s) x = c.rng.chance(0.5) ? '\0' : B64_ALPHABET[c.rng.below(64)]; break;
    default: for (auto& x : s) x = B64_ALPHABET[c.rng.below(64)]; break;           // no padding at all
  }
  return s;
}
template <class T>
void decodeCase(Ctx& c) {
  int kind = 0;
  const std::string hold = hostile(c, kind);
  // exact-size heap buffer: the string owns capacity == size as far as possible
  std::string s(hold);
  s.shrink_to_fit();
  std::string raw;
  const bool wf = b64dec(s, raw);
  c.count(wf ? "well-formed" : "malformed");
  c.count("text-kind:" + std::to_string(kind));
  c.desc << "kind " << kind << " text " << jesc(s);
  c.nontrivial = true;
  c.op("Decode");
  const std::vector<T> v = B64::template Decode<T>(s);
  c.check(s == hold, "Decode:text-changed");
  const size_t carry = (wf ? raw.size() : s.size() / 4 * 3) / sizeof(T);
  c.check_f(v.size() <= carry, "Decode:too-many-elements", [&] { return "got " + std::to_string(v.size()) + " elements, text carries at most " + std::to_string(carry); });
  c.check_f(!wf || v.size() == carry, "Decode:elements-missing", [&] { return "got " + std::to_string(v.size()) + " elements, text carries " + std::to_string(carry); });
  if (wf && carry) c.check(memcmp(v.data(), raw.data(), carry * sizeof(T)) == 0, "Decode:content");
  // every byte of the result is readable and initialised (the memory checkers watch this loop)
  unsigned sum = 0;
  for (size_t i = 0; i < v.size() * sizeof(T); i++) sum += ((const unsigned char*)v.data())[i];
  if (sum == 12345678u) c.count("sum");
  c.check(B64::template Decode<T>(s).size() == v.size(), "Decode:repeatable");
}
template <class P>
void decodePoints(Ctx& c) {
  int kind = 0;
  std::string s = hostile(c, kind);
  using S = typename P::ScalarType_;
  constexpr size_t D = P::kSpatialDimension;
  std::string raw;
  const bool wf = b64dec(s, raw);
  c.desc << "kind " << kind << " text " << jesc(s);
  c.nontrivial = true;
  c.op("Decode-scalars");
  const std::vector<S> v = B64::template Decode<S>(s);
  const size_t carry = (wf ? raw.size() : s.size() / 4 * 3) / sizeof(S);
  c.check(v.size() <= carry, "Decode-scalars:too-many-elements");
  if (v.size() % D) { c.count("points-skipped"); return; }  // whole points are a stated precondition
  c.op("Decode-points");
  const auto p = B64::template Decode<P>(s);
  c.check(p.size() == v.size() / D, "Decode-points:size");
  for (size_t k = 0; k < p.size(); k++)
    for (size_t i = 0; i < D; i++) { S x = p[k][i]; c.check(memcmp(&x, &v[k * D + i], sizeof(S)) == 0, "Decode-points:content"); }
}
template <class T>
void encodeCase(Ctx& c) {
  const size_t n = c.rng.range(0, c.rng.chance(0.1) ? 300 : 13);
  c.desc << "n=" << n;
  c.nontrivial = true;
  std::vector<T> v;
  v.reserve(n);  // capacity == size: the byte behind the last element is not ours
  for (size_t i = 0; i < n; i++) {
    T t;
    for (size_t k = 0; k < sizeof t; k++) ((unsigned char*)&t)[k] = (unsigned char)c.rng.u64();
    v.push_back(t);
    if (i < 3) c.desc << " " << (unsigned)((unsigned char*)&t)[0];
  }
  c.count("encode-bytes-mod-3:" + std::to_string(n * sizeof(T) % 3));
  c.op("Encode");
  const std::string s = B64::Encode(v);
  c.check(s.size() == (n * sizeof(T) + 2) / 3 * 4, "Encode:size");
  // pad bits: nothing but the bytes of the list
  std::string raw;
  const bool wf = b64dec(s, raw);
  c.check(wf && b64enc(raw) == s, "Encode:carries-foreign-bits");
  c.check(raw.size() == n * sizeof(T) && (n == 0 || memcmp(raw.data(), v.data(), raw.size()) == 0), "Encode:content");
  c.op("Encode-const-copy");
  // a list whose storage ends exactly at the end of its allocation
  const std::vector<T> w(v.begin(), v.end());
  c.check(B64::Encode(w) == s, "Encode:depends-on-neighbouring-memory");
}
template <std::size_t D, class S>
void encodePoints(Ctx& c) {
  const size_t n = c.rng.range(0, 9);
  std::vector<bz::Point<D, S>> v;
  v.reserve(n);
  c.desc << "n=" << n;
  for (size_t i = 0; i < n; i++) {
    bz::Point<D, S> p;
    for (size_t k = 0; k < D; k++) { p[k] = (S)c.rng.uni(-5, 5); c.desc << " " << p[k]; }
    v.push_back(p);
  }
  c.nontrivial = n > 0;
  c.op("Encode-points");
  const std::string s = B64::Encode(v);
  c.check(s.size() == (n * D * sizeof(S) + 2) / 3 * 4, "Encode-points:size");
  std::string raw;
  c.check(b64dec(s, raw) && b64enc(raw) == s, "Encode-points:carries-foreign-bits");
}
int main(int argc, char** argv) {
  reg("decode<double>", decodeCase<double>, 2);
  reg("decode<char>", decodeCase<char>, 2);
  reg("decode<int16>", decodeCase<int16_t>, 2);
  reg("decode<float>", decodeCase<float>, 2);
  reg("decode<struct5>", decodeCase<Rec5>, 2);
  reg("decode<struct12>", decodeCase<Rec12>, 2);
  reg("decode<Point<2>>", decodePoints<bz::Point<2, double>>, 2);
  reg("decode<Point<3,float>>", decodePoints<bz::Point<3, float>>, 2);
  reg("encode<double>", encodeCase<double>);
  reg("encode<float>", encodeCase<float>);
  reg("encode<char>", encodeCase<char>);
  reg("encode<int16>", encodeCase<int16_t>);
  reg("encode<struct5>", encodeCase<Rec5>);
  reg("encode<Point<3>>", encodePoints<3, double>);
  reg("encode<Point<5,float>>", encodePoints<5, float>);
  return run_main(argc, argv, "P20");
}
