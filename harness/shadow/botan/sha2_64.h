// Stand-in for Botan's hash: the checks never depend on the hash function, only
// on what is fed to it. Collects the input and folds it into 32 bytes.
#ifndef SHADOW_BOTAN
#define SHADOW_BOTAN
#include <cstddef>
#include <cstdint>
#include <string>
namespace Botan {
class SHA_512_256 {
    std::string in_;
   public:
    void update(const uint8_t* p, size_t n) { in_.append((const char*)p, n); }
    size_t output_length() const { return 32; }
    void final(uint8_t* out) {
        for (int i = 0; i < 32; ++i) out[i] = (uint8_t)(i * 7 + in_.size());
        for (size_t i = 0; i < in_.size(); ++i) out[i % 32] = (uint8_t)(((out[i % 32] << 1) | (out[i % 32] >> 7)) ^ in_[i]);
        in_.clear();
    }
};
}
#endif
