// Independent RFC 4648 coder used as oracle for P19/P20.
#pragma once
#include <string>
#include <vector>
namespace vf {
inline const char* B64_ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
inline std::string b64enc(const std::string& in) {  // bit queue, not group based
  std::string o;
  unsigned acc = 0, nb = 0;
  for (unsigned char ch : in) {
    acc = (acc << 8) | ch;
    nb += 8;
    while (nb >= 6) {
      nb -= 6;
      o += B64_ALPHABET[(acc >> nb) & 63];
    }
    acc &= (1u << nb) - 1;
  }
  if (nb) o += B64_ALPHABET[(acc << (6 - nb)) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
// strict: false unless the text is well formed; trailing bits are ignored
inline bool b64dec(const std::string& in, std::string& out) {
  out.clear();
  if (in.size() % 4) return false;
  size_t n = in.size();
  size_t pad = 0;
  while (pad < 2 && n && in[n - 1] == '=') { n--; pad++; }
  unsigned acc = 0, nb = 0;
  for (size_t i = 0; i < n; i++) {
    const char* p = nullptr;
    for (const char* q = B64_ALPHABET; *q; q++) if (*q == in[i]) p = q;
    if (!p) return false;
    acc = (acc << 6) | (unsigned)(p - B64_ALPHABET);
    nb += 6;
    if (nb >= 8) { nb -= 8; out += (char)(acc >> nb); acc &= (1u << nb) - 1; }
  }
  return true;
}
}  // namespace vf
