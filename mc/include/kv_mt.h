// Included first by every file of the multi-threaded variant: zeroing a fresh buffer is not a sequence of
// instrumented one-byte stores.
#pragma once
#include <cstring>
#include <memory>
namespace std {
template <> inline unique_ptr<unsigned char[]> make_unique<unsigned char[]>(size_t n) {
  unsigned char *p = new unsigned char[n];
  memset(p, 0, n);
  return unique_ptr<unsigned char[]>(p);
}
} // namespace std
