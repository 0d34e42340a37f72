// Makes calls of the SSL library fail.  The linker redirects the fallible
// calls of the code under test to the wrappers below (--wrap, see FALLIBLE in
// checks_table.py), which fail at a generated point.
#ifndef VERIF_FAULT_H_
#define VERIF_FAULT_H_
#include <openssl/bio.h>
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#ifdef OPENSSL_IS_BORINGSSL
#include <openssl/aead.h>
#include <openssl/hkdf.h>
#endif
#include <cstdint>
#include <cstring>

namespace fault {
bool armed = false, fired = false, after = false, queue = false;
bool exhausted = false;  // No BIO can be made after the failure.
uint64_t left = 0, calls = 0;
bool fired_now = false;
const char* where = "";
// Whether this call fails.
bool Trip(const char* name) {
  if (!armed) return false;
  ++calls;
  if (left-- != 0) return false;
  armed = false;
  fired = fired_now = true;
  where = name;
  if (queue) ERR_put_error(ERR_LIB_EVP, 0, 65, "fault", 1);
  return true;
}
struct Arm {
  Arm(uint64_t n, bool a, bool q) {
    armed = true;
    fired = false;
    after = a;
    queue = q;
    exhausted = a && q && n % 3 == 0;
    left = n;
    calls = 0;
    where = "";
  }
  ~Arm() { armed = fired_now = false; }
};
}  // namespace fault

// A call which fails instead of doing its work, or after doing it.
#define WRAP(name, params, args)                     \
  extern "C" int __real_##name params;               \
  extern "C" int __wrap_##name params {              \
    if (!fault::Trip(#name)) return __real_##name args; \
    if (fault::after) __real_##name args;            \
    return 0;                                        \
  }
// A constructor.
#define WRAP_NEW(type, name, params, args)           \
  extern "C" type* __real_##name params;             \
  extern "C" type* __wrap_##name params {            \
    if (!fault::Trip(#name)) return __real_##name args; \
    return nullptr;                                  \
  }
WRAP_NEW(EVP_CIPHER_CTX, EVP_CIPHER_CTX_new, (), ())
#define INIT(name)                                                                                     \
  WRAP(name, (EVP_CIPHER_CTX * c, const EVP_CIPHER* t, ENGINE* e, const uint8_t* k, const uint8_t* i), \
       (c, t, e, k, i))
INIT(EVP_EncryptInit_ex)
INIT(EVP_DecryptInit_ex)
#define UPDATE(name) WRAP(name, (EVP_CIPHER_CTX * c, uint8_t * o, int* ol, const uint8_t* i, int il), (c, o, ol, i, il))
UPDATE(EVP_EncryptUpdate)
UPDATE(EVP_DecryptUpdate)
UPDATE(EVP_CipherUpdate)
#define FINAL(name) WRAP(name, (EVP_CIPHER_CTX * c, uint8_t * o, int* ol), (c, o, ol))
FINAL(EVP_EncryptFinal_ex)
FINAL(EVP_DecryptFinal_ex)
FINAL(EVP_CipherFinal_ex)
WRAP(EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX * c, int t, int a, void* p), (c, t, a, p))
extern "C" BIO* __real_BIO_new(const BIO_METHOD*);
extern "C" BIO* __wrap_BIO_new(const BIO_METHOD* m) {
  return fault::fired_now && fault::exhausted ? nullptr : __real_BIO_new(m);
}
WRAP_NEW(HMAC_CTX, HMAC_CTX_new, (), ())
#ifdef OPENSSL_IS_BORINGSSL
WRAP(HMAC_Init_ex, (HMAC_CTX * c, const void* k, size_t n, const EVP_MD* m, ENGINE* e), (c, k, n, m, e))
WRAP_NEW(EVP_AEAD_CTX, EVP_AEAD_CTX_new, (const EVP_AEAD* a, const uint8_t* k, size_t n, size_t t), (a, k, n, t))
WRAP(EVP_AEAD_CTX_seal,
     (const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t m, const uint8_t* n, size_t nl, const uint8_t* i, size_t il,
      const uint8_t* a, size_t al),
     (c, o, ol, m, n, nl, i, il, a, al))
extern "C" int __real_EVP_AEAD_CTX_open(const EVP_AEAD_CTX*, uint8_t*, size_t*, size_t, const uint8_t*, size_t,
                                        const uint8_t*, size_t, const uint8_t*, size_t);
extern "C" int __wrap_EVP_AEAD_CTX_open(const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t m, const uint8_t* n,
                                        size_t nl, const uint8_t* i, size_t il, const uint8_t* a, size_t al) {
  if (!fault::Trip("EVP_AEAD_CTX_open")) return __real_EVP_AEAD_CTX_open(c, o, ol, m, n, nl, i, il, a, al);
  // Its contract: on failure the output is filled with zeros.
  if (m) memset(o, 0, m);
  *ol = 0;
  return 0;
}
WRAP(HKDF_expand,
     (uint8_t * o, size_t n, const EVP_MD* d, const uint8_t* k, size_t kl, const uint8_t* i, size_t il),
     (o, n, d, k, kl, i, il))
#else
WRAP(HMAC_Init_ex, (HMAC_CTX * c, const void* k, int n, const EVP_MD* m, ENGINE* e), (c, k, n, m, e))
#endif
WRAP(HMAC_Update, (HMAC_CTX * c, const uint8_t* d, size_t n), (c, d, n))
WRAP(HMAC_Final, (HMAC_CTX * c, uint8_t* d, unsigned* n), (c, d, n))

#endif
