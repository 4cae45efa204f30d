// Entry points for the analysis of the inline functions of BytePacker.
#include <cstddef>
#include <cstdint>
#include "bytepacker.h"
using dyscostman::BytePacker;
extern "C" {
void h_pack(unsigned b, unsigned char *dest, const unsigned *symbols, size_t n) {
  BytePacker::pack(b, dest, symbols, n);
}
void h_unpack(unsigned b, unsigned *symbols, unsigned char *packed, size_t n) {
  BytePacker::unpack(b, symbols, packed, n);
}
size_t h_size(size_t n, size_t b) { return BytePacker::bufferSize(n, b); }
bool h_supported(unsigned b) { return BytePacker::isSupported(b); }
}
