#include "refcrypto.hh"

#include <cstring>
#include <openssl/evp.h>
#include <stdexcept>
#include <zlib.h>

namespace ref {
std::string sha256(const std::string& d) {
  unsigned char o[32];
  unsigned n = 32;
  EVP_Digest(d.data(), d.size(), o, &n, EVP_sha256(), nullptr);
  return std::string(reinterpret_cast<char*>(o), 32);
}
std::string aes_ecb_rounds(const std::string& key, std::string b, uint64_t rounds) {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, EVP_aes_256_ecb(), nullptr, reinterpret_cast<const unsigned char*>(key.data()), nullptr);
  EVP_CIPHER_CTX_set_padding(c, 0);
  unsigned char o[64];
  int n = 0;
  for (uint64_t i = 0; i < rounds; ++i) {
    EVP_EncryptUpdate(c, o, &n, reinterpret_cast<const unsigned char*>(b.data()), 32);
    b.assign(reinterpret_cast<char*>(o), 32);
  }
  EVP_CIPHER_CTX_free(c);
  return b;
}

// ---- Twofish (from the specification) --------------------------------------------------------------------------
namespace {
const uint8_t T[2][4][16] = {
  {{8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4},{14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13},{11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1},{13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10}},
  {{2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5},{1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8},{4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15},{11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10}}};
uint8_t qperm(int w, uint8_t x) {
  auto ror4 = [](unsigned v) { return ((v >> 1) | (v << 3)) & 15; };
  unsigned a0 = x >> 4, b0 = x & 15, a1 = a0 ^ b0, b1 = (a0 ^ ror4(b0) ^ (8 * a0)) & 15;
  unsigned a2 = T[w][0][a1], b2 = T[w][1][b1], a3 = a2 ^ b2, b3 = (a2 ^ ror4(b2) ^ (8 * a2)) & 15;
  return static_cast<uint8_t>(16 * T[w][3][b3] + T[w][2][a3]);
}
uint8_t gf(unsigned a, unsigned b, unsigned poly) {
  unsigned r = 0;
  for (; b; b >>= 1) { if (b & 1) r ^= a; a <<= 1; if (a & 256) a ^= poly; }
  return static_cast<uint8_t>(r);
}
uint32_t rol(uint32_t v, int n) { return (v << n) | (v >> (32 - n)); }
uint32_t ror(uint32_t v, int n) { return (v >> n) | (v << (32 - n)); }
uint32_t le(const uint8_t* p) { return static_cast<uint32_t>(p[0]) | static_cast<uint32_t>(p[1]) << 8 | static_cast<uint32_t>(p[2]) << 16 | static_cast<uint32_t>(p[3]) << 24; }
void sle(uint8_t* p, uint32_t v) { for (int i = 0; i < 4; ++i) p[i] = static_cast<uint8_t>(v >> (8 * i)); }

struct Twofish {
  uint32_t K[40];
  uint32_t sb[4][256];
  static uint8_t q[2][256];
  static bool ready;
  static void init() {
    if (ready) return;
    for (int w = 0; w < 2; ++w) for (int x = 0; x < 256; ++x) q[w][x] = qperm(w, static_cast<uint8_t>(x));
    ready = true;
  }
  static uint32_t mds(const uint8_t y[4]) {
    static const uint8_t M[4][4] = {{0x01,0xEF,0x5B,0x5B},{0x5B,0xEF,0xEF,0x01},{0xEF,0x5B,0x01,0xEF},{0xEF,0x01,0xEF,0x5B}};
    uint32_t z = 0;
    for (int i = 0; i < 4; ++i) { uint8_t s = 0; for (int j = 0; j < 4; ++j) s ^= gf(M[i][j], y[j], 0x169); z |= static_cast<uint32_t>(s) << (8 * i); }
    return z;
  }
  static uint32_t h(uint32_t X, const uint32_t L[4]) {
    uint8_t y[4];
    sle(y, X);
    auto l = [&](int i, int j) { return static_cast<uint8_t>(L[i] >> (8 * j)); };
    static const int Q[5][4] = {{1,0,0,1},{1,1,0,0},{0,1,0,1},{0,0,1,1},{1,0,1,0}};
    for (int s = 0; s < 4; ++s) for (int j = 0; j < 4; ++j) y[j] = static_cast<uint8_t>(q[Q[s][j]][y[j]] ^ l(3 - s, j));
    for (int j = 0; j < 4; ++j) y[j] = q[Q[4][j]][y[j]];
    return mds(y);
  }
  explicit Twofish(const std::string& key) {
    init();
    const uint8_t* k = reinterpret_cast<const uint8_t*>(key.data());
    uint32_t Me[4], Mo[4], S[4];
    static const uint8_t RS[4][8] = {{0x01,0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E},{0xA4,0x56,0x82,0xF3,0x1E,0xC6,0x68,0xE5},
                                     {0x02,0xA1,0xFC,0xC1,0x47,0xAE,0x3D,0x19},{0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E,0x03}};
    for (int i = 0; i < 4; ++i) {
      Me[i] = le(k + 8 * i);
      Mo[i] = le(k + 8 * i + 4);
      uint32_t s = 0;
      for (int r = 0; r < 4; ++r) { uint8_t v = 0; for (int c = 0; c < 8; ++c) v ^= gf(RS[r][c], k[8 * i + c], 0x14D); s |= static_cast<uint32_t>(v) << (8 * r); }
      S[3 - i] = s;
    }
    for (uint32_t i = 0; i < 20; ++i) {
      uint32_t A = h(0x01010101u * (2 * i), Me), B = rol(h(0x01010101u * (2 * i + 1), Mo), 8);
      K[2 * i] = A + B;
      K[2 * i + 1] = rol(A + 2 * B, 9);
    }
    // h is linear over the bytes after the S-boxes: tabulate it per byte position.
    uint32_t z = h(0, S);
    for (int j = 0; j < 4; ++j) for (uint32_t x = 0; x < 256; ++x) sb[j][x] = h(x << (8 * j), S) ^ (j ? z : 0);
  }
  uint32_t g(uint32_t x) const { return sb[0][x & 255] ^ sb[1][(x >> 8) & 255] ^ sb[2][(x >> 16) & 255] ^ sb[3][x >> 24]; }
  void enc(uint8_t* b) const {
    uint32_t r[4];
    for (int i = 0; i < 4; ++i) r[i] = le(b + 4 * i) ^ K[i];
    for (int i = 0; i < 16; ++i) {
      uint32_t a = g(r[0]), c = g(rol(r[1], 8));
      uint32_t x = ror(r[2] ^ (a + c + K[8 + 2 * i]), 1), y = rol(r[3], 1) ^ (a + 2 * c + K[9 + 2 * i]);
      r[2] = r[0]; r[3] = r[1]; r[0] = x; r[1] = y;
    }
    uint32_t o[4] = {r[2], r[3], r[0], r[1]};
    for (int i = 0; i < 4; ++i) sle(b + 4 * i, o[i] ^ K[4 + i]);
  }
  void dec(uint8_t* b) const {
    uint32_t o[4], r[4];
    for (int i = 0; i < 4; ++i) o[i] = le(b + 4 * i) ^ K[4 + i];
    r[2] = o[0]; r[3] = o[1]; r[0] = o[2]; r[1] = o[3];
    for (int i = 15; i >= 0; --i) {
      uint32_t x = r[0], y = r[1];
      r[0] = r[2]; r[1] = r[3];
      uint32_t a = g(r[0]), c = g(rol(r[1], 8));
      r[2] = rol(x, 1) ^ (a + c + K[8 + 2 * i]);
      r[3] = ror(y ^ (a + 2 * c + K[9 + 2 * i]), 1);
    }
    for (int i = 0; i < 4; ++i) sle(b + 4 * i, r[i] ^ K[i]);
  }
};
uint8_t Twofish::q[2][256];
bool Twofish::ready = false;
}  // namespace

static std::string aes_cbc(bool enc, const std::string& key, const std::string& iv, const std::string& d) {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_CipherInit_ex(c, EVP_aes_256_cbc(), nullptr, reinterpret_cast<const unsigned char*>(key.data()), reinterpret_cast<const unsigned char*>(iv.data()), enc);
  EVP_CIPHER_CTX_set_padding(c, 0);
  std::string o(d.size() + 32, '\0');
  int n = 0, m = 0;
  EVP_CipherUpdate(c, reinterpret_cast<unsigned char*>(&o[0]), &n, reinterpret_cast<const unsigned char*>(d.data()), static_cast<int>(d.size()));
  EVP_CipherFinal_ex(c, reinterpret_cast<unsigned char*>(&o[0]) + n, &m);
  EVP_CIPHER_CTX_free(c);
  o.resize(static_cast<size_t>(n + m));
  return o;
}
std::string cbc_encrypt(int cipher, const std::string& key, const std::string& iv, const std::string& d) {
  size_t pad = 16 - d.size() % 16;
  std::string s = d + std::string(pad, static_cast<char>(pad));
  if (!cipher) return aes_cbc(true, key, iv, s);
  Twofish t(key);
  std::string prev = iv;
  for (size_t i = 0; i < s.size(); i += 16) {
    for (size_t j = 0; j < 16; ++j) s[i + j] = static_cast<char>(s[i + j] ^ prev[j]);
    t.enc(reinterpret_cast<uint8_t*>(&s[i]));
    prev.assign(s, i, 16);
  }
  return s;
}
bool cbc_decrypt(int cipher, const std::string& key, const std::string& iv, const std::string& d, std::string& out) {
  if (d.empty() || d.size() % 16) return false;
  if (!cipher) out = aes_cbc(false, key, iv, d);
  else {
    Twofish t(key);
    out = d;
    std::string prev = iv;
    for (size_t i = 0; i < d.size(); i += 16) {
      t.dec(reinterpret_cast<uint8_t*>(&out[i]));
      for (size_t j = 0; j < 16; ++j) out[i + j] = static_cast<char>(out[i + j] ^ prev[j]);
      prev.assign(d, i, 16);
    }
  }
  uint8_t pad = static_cast<uint8_t>(out.back());
  if (pad < 1 || pad > 16) return false;
  for (size_t i = 0; i < pad; ++i) if (static_cast<uint8_t>(out[out.size() - 1 - i]) != pad) return false;
  out.resize(out.size() - pad);
  return true;
}

Salsa20::Salsa20(const std::string& key, const std::string& iv) {
  const uint8_t* k = reinterpret_cast<const uint8_t*>(key.data());
  static const uint8_t* s = reinterpret_cast<const uint8_t*>("expand 32-byte k");
  for (int i = 0; i < 4; ++i) { in[5 * i] = le(s + 4 * i); in[1 + i] = le(k + 4 * i); in[11 + i] = le(k + 16 + 4 * i); }
  in[6] = le(reinterpret_cast<const uint8_t*>(iv.data()));
  in[7] = le(reinterpret_cast<const uint8_t*>(iv.data()) + 4);
  in[8] = in[9] = 0;
}
std::string Salsa20::process(const std::string& d) {
  std::string o = d;
  for (auto& ch : o) {
    if (pos == 64) {
      uint32_t x[16];
      memcpy(x, in, sizeof x);
      auto qr = [&](int a, int b, int c, int e) {
        x[b] ^= rol(x[a] + x[e], 7); x[c] ^= rol(x[b] + x[a], 9); x[e] ^= rol(x[c] + x[b], 13); x[a] ^= rol(x[e] + x[c], 18);
      };
      for (int i = 0; i < 10; ++i) {
        qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11);
        qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14);
      }
      for (int i = 0; i < 16; ++i) sle(buf + 4 * i, x[i] + in[i]);
      if (!++in[8]) ++in[9];
      pos = 0;
    }
    ch = static_cast<char>(ch ^ buf[pos++]);
  }
  return o;
}

static const char* kB64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const std::string& d) {
  std::string o;
  for (size_t i = 0; i < d.size(); i += 3) {
    uint32_t v = 0;
    size_t n = d.size() - i < 3 ? d.size() - i : 3;
    for (size_t j = 0; j < 3; ++j) v = v << 8 | (j < n ? static_cast<uint8_t>(d[i + j]) : 0);
    for (size_t j = 0; j < 4; ++j) o += j <= n ? kB64[(v >> (18 - 6 * j)) & 63] : '=';
  }
  return o;
}
bool unb64(const std::string& s, std::string& out) {
  out.clear();
  std::string t;
  for (char c : s) if (!strchr(" \t\r\n", c) || !c) t += c;
  if (t.size() % 4) return false;
  for (size_t i = 0; i < t.size(); i += 4) {
    uint32_t v = 0;
    int n = 0;
    for (size_t j = 0; j < 4; ++j) {
      char c = t[i + j];
      const char* p = c ? strchr(kB64, c) : nullptr;
      if (c == '=') { if (i + 4 != t.size() || j < 2 || (j == 2 && t[i + 3] != '=')) return false; v <<= 6; continue; }
      if (!p || (j == 3 && t[i + 2] == '=')) return false;
      v = v << 6 | static_cast<uint32_t>(p - kB64);
      ++n;
    }
    for (int j = 0; j < n - 1; ++j) out += static_cast<char>(v >> (16 - 8 * j));
  }
  return true;
}

std::string gzip(const std::string& d, int level, size_t chunk, int strategy, int mem, bool name) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (deflateInit2(&z, level, Z_DEFLATED, 31, mem, strategy) != Z_OK) throw std::runtime_error("deflateInit2");
  gz_header h;
  memset(&h, 0, sizeof h);
  char nm[] = "content.xml", cm[] = "comment";
  unsigned char ex[] = {'x', 'y', 2, 0, 1, 2};
  if (name) { h.name = reinterpret_cast<Bytef*>(nm); h.comment = reinterpret_cast<Bytef*>(cm); h.extra = ex; h.extra_len = 6; h.hcrc = 1; h.time = 12345; deflateSetHeader(&z, &h); }
  std::string o;
  size_t pos = 0;
  char buf[8192];
  do {
    size_t n = d.size() - pos;
    if (chunk && n > chunk) n = chunk;
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(d.data() + pos));
    z.avail_in = static_cast<uInt>(n);
    pos += n;
    int fl = pos == d.size() ? Z_FINISH : chunk ? Z_FULL_FLUSH : Z_NO_FLUSH;
    do {
      z.next_out = reinterpret_cast<Bytef*>(buf);
      z.avail_out = sizeof buf;
      deflate(&z, fl);
      o.append(buf, sizeof buf - z.avail_out);
    } while (z.avail_out == 0);
  } while (pos < d.size());
  deflateEnd(&z);
  return o;
}
bool gunzip(const std::string& d, std::string& out) {
  out.clear();
  z_stream z;
  memset(&z, 0, sizeof z);
  if (inflateInit2(&z, 31) != Z_OK) return false;
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(d.data()));
  z.avail_in = static_cast<uInt>(d.size());
  char buf[8192];
  int r;
  do {
    z.next_out = reinterpret_cast<Bytef*>(buf);
    z.avail_out = sizeof buf;
    r = inflate(&z, Z_NO_FLUSH);
    out.append(buf, sizeof buf - z.avail_out);
  } while (r == Z_OK);
  bool ok = r == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok;
}

static std::string unhex(const char* s) {
  std::string o;
  for (; *s; s += 2) { unsigned v = 0; for (int i = 0; i < 2; ++i) v = v * 16 + static_cast<unsigned>(s[i] <= '9' ? s[i] - '0' : s[i] - 'A' + 10); o += static_cast<char>(v); }
  return o;
}
bool self_test() {
  std::string b(16, '\0');
  Twofish t(std::string(32, '\0'));
  t.enc(reinterpret_cast<uint8_t*>(&b[0]));
  if (b != unhex("57FF739D4DC92C1BD7FC01700CC8216F")) return false;
  t.dec(reinterpret_cast<uint8_t*>(&b[0]));
  if (b != std::string(16, '\0')) return false;
  Twofish u(unhex("0123456789ABCDEFFEDCBA987654321000112233445566778899AABBCCDDEEFF"));
  u.enc(reinterpret_cast<uint8_t*>(&b[0]));
  if (b != unhex("37527BE0052334B89F0CFCCAE87CFA20")) return false;
  std::string k(32, '\0');
  k[0] = static_cast<char>(0x80);
  Salsa20 s(k, std::string(8, '\0'));
  if (s.process(std::string(32, '\0')) != unhex("E3BE8FDD8BECA2E3EA8EF9475B29A6E7003951E1097A5C38D23B7A5FAD9F6844")) return false;
  std::string o;
  if (!unb64(b64("any carnal pleas"), o) || o != "any carnal pleas") return false;
  if (!gunzip(gzip("hello", 9, 2, 0, 8, true), o) || o != "hello") return false;
  if (sha256("abc") != unhex("BA7816BF8F01CFEA414140DE5DAE2223B00361A396177A9CB410FF61F20015AD")) return false;
  return true;
}
}  // namespace ref
