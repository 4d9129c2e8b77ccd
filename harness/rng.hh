// Deterministic pseudo random numbers. The only source of choice in the simulator.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  uint8_t byte() { return static_cast<uint8_t>(next() >> 24); }
  std::string bytes(size_t n) {
    std::string r(n, '\0');
    for (size_t i = 0; i < n; ++i) r[i] = static_cast<char>(byte());
    return r;
  }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t mix64(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) {
  return hash_bytes(s.data(), s.size(), h);
}
