// C13: byte order conversion and bit packing.
#include "util.h"
#include "common/DataConvert.h"
using namespace dp3::common;
template <class F, class G>
static void swapN(size_t w, size_t n, F inplace, G outplace) {
  std::vector<unsigned char> a(w * n + 2), b(w * n + 2, 0x5a), c;
  for (auto& x : a) x = sym<uint8_t>("b");
  c = a;
  outplace(&b[1], &a[1], n);
  inplace(&c[1], n);
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < w; ++k) {
      sym_assert(b[1 + i * w + k] == a[1 + i * w + (w - 1 - k)], "bytes of every value are reversed");
      sym_assert(c[1 + i * w + k] == b[1 + i * w + k], "in-place conversion agrees");
    }
  sym_assert(b[0] == 0x5a && b[w * n + 1] == 0x5a && c[0] == a[0] && c[w * n + 1] == a[w * n + 1], "nothing outside the values is written");
  inplace(&c[1], n);
  for (size_t i = 0; i < a.size(); ++i) sym_assert(c[i] == a[i], "converting twice gives the original");
  sym_reach("swap");
}
template <class T>
static void scalar() {
  const T v = sym<T>("v");
  const T s = dataConvert(DataFormat(0), v);
  unsigned char p[sizeof(T)], q[sizeof(T)];
  std::memcpy(p, &v, sizeof v);
  std::memcpy(q, &s, sizeof v);
  for (size_t k = 0; k < sizeof(T); ++k) sym_assert(q[k] == p[sizeof(T) - 1 - k], "bytes of a value are reversed");
  sym_assert(dataConvert(DataFormat(0), s) == v, "converting twice gives the original");
  T arr[3] = {v, s, v};
  dataConvert(DataFormat(0), arr, 2u);
  sym_assert(arr[0] == s && arr[1] == v && arr[2] == v, "array conversion agrees");
  sym_reach("scalar");
}
template <class T>
static void cplx() {
  T raw[6];
  sym_make(raw, sizeof raw, "c");
  T o[6];
  std::memcpy(o, raw, sizeof raw);
  dataConvert(DataFormat(0), reinterpret_cast<std::complex<T>*>(raw), 2u);
  const unsigned char *p = reinterpret_cast<unsigned char*>(o), *q = reinterpret_cast<unsigned char*>(raw);
  for (int i = 0; i < 6; ++i)
    for (size_t k = 0; k < sizeof(T); ++k)
      sym_assert(q[i * sizeof(T) + k] == p[i * sizeof(T) + (i < 4 ? sizeof(T) - 1 - k : k)], "real and imaginary parts are converted separately");
  sym_reach("complex");
}
static void bits(unsigned n, unsigned start) {
  std::vector<unsigned char> in(n + 1), bit((start + n + 7) / 8 + 3), old;
  for (auto& x : in) { x = sym<uint8_t>("bool"); sym_assume(x <= 1); }
  for (auto& x : bit) x = sym<uint8_t>("old");
  old = bit;
  const unsigned nb = boolToBit(&bit[0], &in[0], n, start);
  sym_assert(nb == (n == 0 ? 0 : (start % 8 + n + 7) / 8), "number of bytes used");
  for (unsigned i = 0; i < n; ++i) sym_assert(((bit[(start + i) / 8] >> ((start + i) % 8)) & 1) == in[i], "every value is stored in its bit");
  for (unsigned i = 0; i < start; ++i) sym_assert(((bit[i / 8] ^ old[i / 8]) >> (i % 8) & 1) == 0, "bits before the start are kept");
  for (unsigned i = (start + n + 7) / 8; i < bit.size(); ++i) sym_assert(bit[i] == old[i], "bytes behind the end are kept");
  if (n) {
    std::vector<unsigned char> back(n + 1, 7);
    const unsigned nr = bitToBool(&back[0], &bit[0], n, start);
    sym_assert(nr == nb, "same number of bytes read back");
    for (unsigned i = 0; i < n; ++i) sym_assert(back[i] == in[i], "values are read back");
    sym_assert(back[n] == 7, "nothing behind the values is written");
  }
  sym_reach("bits");
}
extern "C" void harness() {
  const int n = sym_param(1);
  switch (sym_param(0)) {
    case 0:
      swapN(2, n, [](void* p, unsigned k) { byteSwap16(p, k); }, [](void* o, const void* p, unsigned k) { byteSwap16(o, p, k); });
      swapN(4, n, [](void* p, unsigned k) { byteSwap32(p, k); }, [](void* o, const void* p, unsigned k) { byteSwap32(o, p, k); });
      swapN(8, n, [](void* p, unsigned k) { byteSwap64(p, k); }, [](void* o, const void* p, unsigned k) { byteSwap64(o, p, k); });
      swapN(2, n, [](void* p, unsigned k) { dataConvert16(DataFormat(0), p, k); }, [](void* o, const void* p, unsigned k) { dataConvert16(DataFormat(0), o, p, k); });
      swapN(4, n, [](void* p, unsigned k) { dataConvert32(DataFormat(0), p, k); }, [](void* o, const void* p, unsigned k) { dataConvert32(DataFormat(0), o, p, k); });
      swapN(8, n, [](void* p, unsigned k) { dataConvert64(DataFormat(0), p, k); }, [](void* o, const void* p, unsigned k) { dataConvert64(DataFormat(0), o, p, k); });
      swapN(4, n, [](void* p, unsigned k) { dataConvertFloat(DataFormat(0), p, k); }, [](void* o, const void* p, unsigned k) { dataConvertFloat(DataFormat(0), o, p, k); });
      swapN(8, n, [](void* p, unsigned k) { dataConvertDouble(DataFormat(0), p, k); }, [](void* o, const void* p, unsigned k) { dataConvertDouble(DataFormat(0), o, p, k); });
      break;
    case 1:
      scalar<int16_t>(); scalar<uint16_t>(); scalar<int32_t>(); scalar<uint32_t>(); scalar<int64_t>(); scalar<uint64_t>();
      cplx<float>(); cplx<double>(); cplx<int16_t>();
      break;
    case 2: bits(n, sym_param(2)); break;
  }
}
