// Independent cryptography for the reference codecs: OpenSSL EVP for AES and SHA-256, own Twofish, Salsa20, base64.
#pragma once
#include <cstdint>
#include <string>

namespace ref {
std::string sha256(const std::string& d);
std::string aes_ecb_rounds(const std::string& key32, std::string block32, uint64_t rounds);
// CBC with PKCS#7 padding. decrypt returns false if the length or padding is wrong.
std::string cbc_encrypt(int cipher, const std::string& key32, const std::string& iv, const std::string& d);
bool cbc_decrypt(int cipher, const std::string& key32, const std::string& iv, const std::string& d, std::string& out);
struct Salsa20 {
  uint32_t in[16];
  uint8_t buf[64];
  unsigned pos = 64;
  Salsa20(const std::string& key32, const std::string& iv8);
  std::string process(const std::string& d);
};
std::string b64(const std::string& d);
bool unb64(const std::string& s, std::string& out);
std::string gzip(const std::string& d, int level = 6, size_t chunk = 0, int strategy = 0, int mem = 8, bool name = false);
bool gunzip(const std::string& d, std::string& out);
bool self_test();
}  // namespace ref
