// Shared parts of the varint checks.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <forward_list>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include <embedded/circular_buffer_adapter.h>
#include <embedded/varint.h>

#include "pbt.h"

using embedded::varint;

using Bytes = std::vector<uint8_t>;

template <typename T>
struct VInfo {
  using U = typename std::make_unsigned<T>::type;
  static constexpr unsigned bits = 8 * sizeof(T);
  static constexpr unsigned max_len = (bits + 6) / 7;
};

// --- reference model: arithmetic on the mathematical value -----------------

template <typename T>
inline unsigned __int128 ref_fold(T v) {
  // signed types: n >= 0 -> 2n, n < 0 -> -2n - 1
  if (std::is_signed<T>::value) {
    __int128 n = static_cast<__int128>(v);
    return static_cast<unsigned __int128>(n >= 0 ? 2 * n : -2 * n - 1);
  }
  return static_cast<unsigned __int128>(static_cast<typename VInfo<T>::U>(v));
}

template <typename T>
inline Bytes ref_encode(T v) {
  unsigned __int128 n = ref_fold(v);
  Bytes r;
  do {
    r.push_back(static_cast<uint8_t>(n % 128));
    n /= 128;
  } while (n != 0);
  for (size_t i = 0; i + 1 < r.size(); ++i) {
    r[i] = static_cast<uint8_t>(r[i] + 128);
  }
  return r;
}

struct RefDecoded {
  bool terminated; // a byte without continuation bit exists
  size_t len;      // length up to and including it
  bool fits;       // the value fits the type
  unsigned __int128 raw;
};

template <typename T>
inline RefDecoded ref_decode(uint8_t const* p, size_t n) {
  RefDecoded r{false, 0, true, 0};
  for (size_t i = 0; i < n; ++i) {
    unsigned const g = p[i] % 128;
    for (unsigned b = 0; b < 7; ++b) {
      if ((g >> b) & 1) {
        size_t const pos = 7 * i + b;
        if (pos >= VInfo<T>::bits) {
          r.fits = false;
        } else {
          r.raw += static_cast<unsigned __int128>(1) << pos;
        }
      }
    }
    if (p[i] < 128) {
      r.terminated = true;
      r.len = i + 1;
      return r;
    }
  }
  return r;
}

template <typename T>
inline T ref_unfold(unsigned __int128 raw) {
  if (std::is_signed<T>::value) {
    __int128 h = static_cast<__int128>(raw / 2);
    return static_cast<T>(raw % 2 ? -h - 1 : h);
  }
  return static_cast<T>(raw);
}

inline std::string hex(uint8_t const* p, size_t n) {
  std::string s;
  for (size_t i = 0; i < n && i < 64; ++i) {
    char b[4];
    std::snprintf(b, sizeof(b), "%02x ", p[i]);
    s += b;
  }
  return s;
}
inline std::string hex(Bytes const& b) { return hex(b.data(), b.size()); }

template <typename T>
inline long long show(T v) {
  return static_cast<long long>(v);
}

// --- a forward-only iterator that supervises all accesses -------------------

struct Tape {
  std::vector<uint8_t> data;
  std::vector<uint8_t> written, read;
  size_t limit; // number of bytes that may be accessed
  char const* error{nullptr};
  explicit Tape(size_t n)
      : data(n + 1, 0xee)
      , written(n + 1, 0)
      , read(n + 1, 0)
      , limit{n} {}
};


// The library requires decay<decltype(*it)> to be uint8_t, so the supervised
// iterator hands out real references: every dereference is checked, and reads
// and writes are told apart by kind of the iterator.
template <bool Writing>
class TapeIt {
 public:
  using iterator_category = std::forward_iterator_tag;
  using value_type = uint8_t;
  using difference_type = std::ptrdiff_t;
  using reference =
      typename std::conditional<Writing, uint8_t&, uint8_t const&>::type;
  using pointer =
      typename std::conditional<Writing, uint8_t*, uint8_t const*>::type;

  TapeIt()
      : t_{nullptr}
      , i_{0} {}
  TapeIt(Tape* t, size_t i)
      : t_{t}
      , i_{i} {}
  reference operator*() const {
    if (i_ >= t_->limit) {
      t_->error = "access at or past the end";
      return t_->data[t_->limit];
    }
    ++(Writing ? t_->written : t_->read)[i_];
    return t_->data[i_];
  }
  TapeIt& operator++() {
    ++i_;
    if (i_ > t_->limit) {
      t_->error = "iterator moved past the end";
    }
    return *this;
  }
  TapeIt operator++(int) {
    TapeIt r = *this;
    ++*this;
    return r;
  }
  bool operator==(TapeIt const& o) const { return i_ == o.i_; }
  bool operator!=(TapeIt const& o) const { return i_ != o.i_; }
  size_t index() const { return i_; }

 private:
  Tape* t_;
  size_t i_;
};

// Exactly sized heap copy: AddressSanitizer sees every overrun.
class Exact {
 public:
  Exact(uint8_t const* p, size_t n)
      : n_{n}
      , p_{new uint8_t[n]} {
    if (n) {
      std::memcpy(p_.get(), p, n);
    }
  }
  uint8_t* data() { return p_.get(); }
  uint8_t* end() { return p_.get() + n_; }

 private:
  size_t n_;
  std::unique_ptr<uint8_t[]> p_;
};

template <typename T>
inline T gen_value(pbt::Case& c) {
  // values are generated both as bit patterns and as encoded numbers
  uint64_t v = c.uint(VInfo<T>::bits);
  if (c.flip()) {
    return static_cast<T>(v);
  }
  return ref_unfold<T>(v & static_cast<typename VInfo<T>::U>(~0ull));
}

#define VARINT_TYPES(X)                                                        \
  X(u8, uint8_t)                                                               \
  X(i8, int8_t)                                                                \
  X(ch, char)                                                                  \
  X(u16, uint16_t)                                                             \
  X(i16, int16_t)                                                              \
  X(u32, uint32_t)                                                             \
  X(i32, int32_t)                                                              \
  X(u64, uint64_t)                                                             \
  X(i64, int64_t)                                                              \
  X(ull, unsigned long long)                                                   \
  X(ll, long long)                                                             \
  X(c32, char32_t)
