#include <fingera_libc/base58.h>
#include <fingera_libc/btc/base58_check.h>
size_t vf_enc_len(size_t n) { return fingera_to_base58_length(n); }
size_t vf_dec_len(size_t n) { return fingera_from_base58_length(n); }
size_t vf_chk_enc_len(size_t n, size_t p) { return fingera_to_base58_check_length(n, p); }
size_t vf_chk_dec_len(size_t n) { return fingera_from_base58_check_length(n); }
