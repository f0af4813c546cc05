// P19: Base64 text is canonical and round-trips bit for bit.
#include <complex>
#include "bezman/src/utils/base64.hpp"
#include "b64ref.hpp"
#include "framework.hpp"
using namespace vf;
namespace bz = bezman;
using B64 = bz::utils::Base64;

struct Rec { int32_t a; uint16_t b, c; };            // 8 bytes, no padding
struct Rec5 { unsigned char x[5]; };
struct Rec7 { signed char x[7]; };

template <class T>
T genVal(Ctx& c) {
  T t;
  memset((void*)&t, 0, sizeof t);
  if constexpr (std::is_floating_point_v<T>) {
    switch (c.rng.below(10)) {
      case 0: t = 0; break;
      case 1: t = -(T)0; break;
      case 2: t = std::numeric_limits<T>::infinity(); break;
      case 3: t = -std::numeric_limits<T>::infinity(); break;
      case 4: t = std::numeric_limits<T>::quiet_NaN(); break;
      case 5: t = std::numeric_limits<T>::denorm_min(); break;
      case 6: t = std::numeric_limits<T>::max(); break;
      default: {
        if constexpr (sizeof(T) <= 8) { uint64_t u = c.rng.u64(); memcpy((void*)&t, &u, sizeof t); }
        else t = (T)c.rng.uni(-1e9, 1e9) / 3;
      }
    }
  } else {
    const int mode = (int)c.rng.below(4);
    for (size_t i = 0; i < sizeof t; i++)
      ((unsigned char*)&t)[i] = mode == 0 ? 0 : mode == 1 ? 0xff : (unsigned char)c.rng.u64();
  }
  return t;
}
template <class T>
std::string rawOf(const std::vector<T>& v) { return v.empty() ? std::string() : std::string((const char*)v.data(), v.size() * sizeof(T)); }
// bits that carry the value (the x87 format leaves six bytes unused)
template <class T>
std::string valueBits(const std::vector<T>& v) {
  std::string o;
  for (auto& x : v) o.append((const char*)&x, std::is_same_v<T, long double> ? 10 : sizeof(T));
  return o;
}
size_t genLen(Ctx& c, size_t size) {
  if (c.rng.below(G.thorough ? 1000 : 120) == 0) {  // around and above 64 KiB, up to 400 kB
    c.count("list-above-64k");
    return c.rng.range(65530, c.rng.chance(0.5) ? 65560 : 400000) / size + 1;
  }
  switch (c.rng.below(8)) {
    case 0: return c.rng.below(4);
    case 1: return c.rng.range(20, G.thorough ? 3000 : 400);
    default: return c.rng.range(0, 24);
  }
}
// leaves residue in the free memory around the next allocation
void dirty(Ctx& c, size_t n) {
  std::vector<unsigned char> junk(n + 8);
  for (auto& j : junk) j = (unsigned char)c.rng.range(1, 255);
  volatile unsigned char sink = junk[c.rng.below(junk.size())];
  (void)sink;
}
template <class T>
void scalarCase(Ctx& c) {
  const size_t n = genLen(c, sizeof(T));
  std::vector<T> v;
  const int cap = (int)c.rng.below(3);
  if (cap == 0) v.reserve(n);
  if (cap == 1) v.reserve(n + c.rng.range(1, 9));
  for (size_t i = 0; i < n; i++) v.push_back(genVal<T>(c));
  if (cap == 2 && c.rng.chance(0.5)) {  // elements that were removed must not show
    for (int k = 0; k < 3; k++) v.push_back(genVal<T>(c));
    v.resize(n);
  }
  dirty(c, n * sizeof(T));
  const std::string raw = rawOf(v);
  c.desc << "n=" << n << " bytes=" << b64enc(raw).substr(0, 200) << " cap " << cap;
  c.nontrivial = true;
  c.count("bytes-mod-3:" + std::to_string(raw.size() % 3));
  c.op("Encode");
  const std::string text = B64::Encode(v);
  c.check(rawOf(v) == raw, "Encode:operand-changed");
  const std::string want = b64enc(raw);
  c.check_f(text == want, "Encode:not-canonical", [&] { return "got " + text.substr(0, 200) + " want " + want.substr(0, 200); });
  c.check(B64::Encode(v) == text, "Encode:repeatable");
  const std::vector<T> copy(v);
  if (!std::is_same_v<T, long double>) c.check(B64::Encode(copy) == text, "Encode:depends-on-the-object");
  c.op("Decode");
  const std::vector<T> back = B64::template Decode<T>(text);
  c.check_f(back.size() == v.size(), "Decode:size", [&] { return "got " + std::to_string(back.size()) + " elements, want " + std::to_string(v.size()); });
  c.check(valueBits(back) == valueBits(v), "Decode:bits");
  c.check(B64::template Decode<T>(text).size() == v.size(), "Decode:repeatable");
  c.check(text == want, "Decode:text-changed");
  // text written elsewhere (same bytes) is read the same way
  c.op("Decode-as-bytes");
  const std::vector<unsigned char> bytes = B64::template Decode<unsigned char>(text);
  c.check(std::string(bytes.begin(), bytes.end()) == raw, "Decode:as-bytes");
}
template <std::size_t D, class S>
void pointCase(Ctx& c) {
  using P = bz::Point<D, S>;
  const size_t n = genLen(c, sizeof(P)) / (c.rng.chance(0.5) ? 1 : D) ;
  std::vector<P> v(n);
  std::vector<S> flat;
  for (auto& p : v) for (size_t i = 0; i < D; i++) { p[i] = genVal<S>(c); flat.push_back(p[i]); }
  const std::string raw = valueBits(flat);
  c.desc << "n=" << n << " bytes=" << b64enc(raw).substr(0, 200);
  c.nontrivial = true;
  dirty(c, n * sizeof(P));
  c.op("Encode-points");
  const std::string text = B64::Encode(v);
  if (!std::is_same_v<S, long double>) c.check_f(text == b64enc(raw), "Encode-points:not-canonical", [&] { return text.substr(0, 200); });
  c.op("Decode-points");
  const auto back = B64::template Decode<P>(text);
  c.check(back.size() == n, "Decode-points:size");
  if (n > 4000) { bool all = true; for (size_t k = 0; k < n; k++) for (size_t i = 0; i < D; i++) all = all && memcmp(&back[k][i], &v[k][i], std::is_same_v<S, long double> ? 10 : sizeof(S)) == 0; c.check(all, "Decode-points:bits"); return; }
  for (size_t k = 0; k < n; k++) for (size_t i = 0; i < D; i++)
    c.check(valueBits(std::vector<S>{back[k][i]}) == valueBits(std::vector<S>{v[k][i]}), "Decode-points:bits");
  c.op("Decode-points-as-scalars");
  const auto sc = B64::template Decode<S>(text);
  c.check(valueBits(sc) == raw, "Decode-points-as-scalars:bits");
  for (size_t k = 0; k < n; k++) for (size_t i = 0; i < D; i++)
    c.check(valueBits(std::vector<S>{v[k][i]}) == raw.substr((k * D + i) * (raw.size() / (n * D)), raw.size() / (n * D)), "Encode-points:operand-changed");
}
int main(int argc, char** argv) {
  reg("double", scalarCase<double>, 2);
  reg("float", scalarCase<float>);
  reg("long double", scalarCase<long double>);
  reg("char", scalarCase<char>);
  reg("uint8", scalarCase<unsigned char>);
  reg("int16", scalarCase<int16_t>);
  reg("int32", scalarCase<int32_t>);
  reg("uint64", scalarCase<uint64_t>);
  reg("complex", scalarCase<std::complex<double>>);
  reg("struct8", scalarCase<Rec>);
  reg("struct5", scalarCase<Rec5>);
  reg("struct7", scalarCase<Rec7>);
  reg("Point<1>", pointCase<1, double>);
  reg("Point<2>", pointCase<2, double>);
  reg("Point<3>", pointCase<3, double>);
  reg("Point<3,float>", pointCase<3, float>);
  reg("Point<5,float>", pointCase<5, float>);
  reg("Point<2,long double>", pointCase<2, long double>);
  return run_main(argc, argv, "P19");
}
