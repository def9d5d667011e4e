// Shared parts of the circular_buffer_adapter checks.
#pragma once

#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <embedded/circular_buffer_adapter.h>

#include "pbt.h"

#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif
#ifndef VERIF_ASAN
#define VERIF_ASAN 0
#endif
#if VERIF_ASAN
#include <sanitizer/asan_interface.h>
#endif

using embedded::circular_buffer_adapter;

// Memory for `cap` elements of T between two guard zones. With
// AddressSanitizer the guards are poisoned (reads are caught too), otherwise
// they hold a pattern that check() compares.
template <typename T>
class Arena {
 public:
  static constexpr size_t kGuard = 256;
  explicit Arena(size_t cap)
      : cap_{cap}
      , bytes_{kGuard + cap * sizeof(T) + kGuard} {
    raw_ = static_cast<unsigned char*>(::operator new(bytes_ + 64));
    base_ = raw_;
    while ((reinterpret_cast<uintptr_t>(base_) + kGuard) % 64) {
      ++base_;
    }
    for (size_t i = 0; i < bytes_; ++i) {
      base_[i] = pattern(i);
    }
#if VERIF_ASAN
    __asan_poison_memory_region(base_, kGuard);
    __asan_poison_memory_region(base_ + kGuard + cap * sizeof(T), kGuard);
#endif
  }
  ~Arena() {
#if VERIF_ASAN
    __asan_unpoison_memory_region(base_, bytes_);
#endif
    ::operator delete(raw_);
  }
  Arena(Arena const&) = delete;
  Arena& operator=(Arena const&) = delete;

  T* data() { return reinterpret_cast<T*>(base_ + kGuard); }
  T* end() { return data() + cap_; }
  unsigned char* bytes() { return base_ + kGuard; }
  size_t size_bytes() const { return cap_ * sizeof(T); }
  size_t cap() const { return cap_; }

  bool guards_ok() const {
#if VERIF_ASAN
    return true; // a bad access has been reported already
#else
    for (size_t i = 0; i < kGuard; ++i) {
      size_t j = bytes_ - 1 - i;
      if (base_[i] != pattern(i) || base_[j] != pattern(j)) {
        return false;
      }
    }
    return true;
#endif
  }

  bool contains(void const* p) const {
    auto u = reinterpret_cast<uintptr_t>(p);
    auto b = reinterpret_cast<uintptr_t>(base_ + kGuard);
    return u >= b && u < b + cap_ * sizeof(T) && (u - b) % sizeof(T) == 0;
  }
  size_t slot(void const* p) const {
    return (reinterpret_cast<uintptr_t>(p) -
            reinterpret_cast<uintptr_t>(base_ + kGuard)) /
           sizeof(T);
  }

 private:
  static unsigned char pattern(size_t i) {
    return static_cast<unsigned char>(0xa5 ^ (i * 37));
  }
  size_t cap_, bytes_;
  unsigned char* raw_;
  unsigned char* base_;
};

// Small capacities dominate (all phases of wrap-around are reached quickly),
// larger ones appear regularly.
inline size_t gen_capacity(pbt::Case& c, bool allow_zero = true) {
  switch (c.weighted({40, 20, 10, 4, 2})) {
  case 0:
    return static_cast<size_t>(c.range(1, 5));
  case 1:
    return static_cast<size_t>(c.range(6, 17));
  case 2:
    return c.pick<size_t>({18, 24, 31, 32, 33, 48, 63, 64, 65, 100});
  case 3:
    return c.pick<size_t>({127, 128, 129, 200, 255, 256, 257, 300});
  default:
    return allow_zero ? 0 : 1;
  }
}

// element count for a counted operation with `max` available
inline size_t gen_count(pbt::Case& c, size_t max) {
  switch (c.weighted({5, 2, 2, 1})) {
  case 0:
    return static_cast<size_t>(c.draw(max + 1));
  case 1:
    return max;
  case 2:
    return static_cast<size_t>(c.draw(std::min<size_t>(max, 3) + 1));
  default:
    return max - static_cast<size_t>(c.draw(std::min<size_t>(max, 3) + 1));
  }
}

// A history alternates between filling, draining and mixed phases, so that
// full and empty buffers are common.
struct Phase {
  int mode{0};
  bool insert(pbt::Case& c) {
    if (c.chance(1, 12)) {
      mode = static_cast<int>(c.draw(3));
    }
    unsigned const p[] = {5, 8, 2};
    return c.chance(p[mode], 10);
  }
};

// --- trivial element types ---

struct Pod12 {
  uint32_t a;
  uint32_t b;
  uint32_t cc;
};
struct Pod3 {
  uint8_t a, b, cc;
};
static_assert(std::is_trivial<Pod12>::value && std::is_trivial<Pod3>::value &&
                  sizeof(Pod3) == 3,
              "");

template <typename T>
struct Elem {
  static T make(uint64_t id) { return static_cast<T>(id); }
  static uint64_t id(T const& v) { return static_cast<uint64_t>(v); }
  static uint64_t norm(uint64_t id) {
    return static_cast<uint64_t>(static_cast<T>(id));
  }
};
template <>
struct Elem<Pod12> {
  static Pod12 make(uint64_t id) {
    auto x = static_cast<uint32_t>(id);
    return Pod12{x, ~x, x * 7u + 1u};
  }
  static uint64_t id(Pod12 const& v) {
    return v.b == ~v.a && v.cc == v.a * 7u + 1u ? v.a : ~0ull;
  }
  static uint64_t norm(uint64_t id) { return static_cast<uint32_t>(id); }
};
template <>
struct Elem<Pod3> {
  static Pod3 make(uint64_t id) {
    auto x = static_cast<uint8_t>(id);
    return Pod3{x, static_cast<uint8_t>(~x), static_cast<uint8_t>(x * 3 + 1)};
  }
  static uint64_t id(Pod3 const& v) {
    return v.b == static_cast<uint8_t>(~v.a) &&
                   v.cc == static_cast<uint8_t>(v.a * 3 + 1)
               ? v.a
               : ~0ull;
  }
  static uint64_t norm(uint64_t id) { return static_cast<uint8_t>(id); }
};
template <>
struct Elem<std::string> { // long enough to own heap memory
  static std::string make(uint64_t id) {
    return std::to_string(id) + "/element-with-a-rather-long-representation";
  }
  static uint64_t id(std::string const& v) {
    uint64_t n = std::strtoull(v.c_str(), nullptr, 10);
    return v == make(n) ? n : ~0ull;
  }
  static uint64_t norm(uint64_t id) { return id; }
};

enum class Scoped : int16_t { zero };
struct alignas(64) Aligned { // stricter alignment than new/malloc provide
  uint16_t a;
};
struct Big {
  uint32_t w[67];
};
static_assert(std::is_trivial<Aligned>::value && sizeof(Aligned) == 64 &&
                  std::is_trivial<Big>::value && sizeof(Big) == 268,
              "");
// not trivial, although copies are: default member initializer
struct Init {
  uint32_t a{77};
  Init() = default;
  explicit Init(uint32_t x)
      : a{x} {}
};
// all members but the destructor are user-provided
struct Odd {
  uint32_t a;
  Odd()
      : a{0} {}
  explicit Odd(uint32_t x)
      : a{x} {}
  Odd(Odd const& o)
      : a{o.a} {}
  Odd& operator=(Odd const& o) {
    a = o.a;
    return *this;
  }
};
static_assert(!std::is_trivial<Init>::value &&
                  std::is_trivially_copyable<Init>::value &&
                  !std::is_trivially_copyable<Odd>::value &&
                  std::is_trivially_destructible<Odd>::value,
              "");

template <>
struct Elem<double> {
  static double make(uint64_t id) { return static_cast<double>(id) + 0.25; }
  static uint64_t id(double v) {
    auto n = v >= 0 && v < 1e15 ? static_cast<uint64_t>(v) : 0;
    return make(n) == v ? n : ~0ull;
  }
  static uint64_t norm(uint64_t id) { return id & 0xffffffffffu; }
};
template <>
struct Elem<Scoped> {
  static Scoped make(uint64_t id) { return static_cast<Scoped>(id); }
  static uint64_t id(Scoped v) { return static_cast<uint16_t>(v); }
  static uint64_t norm(uint64_t id) { return static_cast<uint16_t>(id); }
};
template <>
struct Elem<char const*> {
  static char const* make(uint64_t id) {
    return reinterpret_cast<char const*>(static_cast<uintptr_t>(id));
  }
  static uint64_t id(char const* v) { return reinterpret_cast<uintptr_t>(v); }
  static uint64_t norm(uint64_t id) { return id; }
};
template <>
struct Elem<Aligned> {
  static Aligned make(uint64_t id) { return Aligned{static_cast<uint16_t>(id)}; }
  static uint64_t id(Aligned const& v) { return v.a; }
  static uint64_t norm(uint64_t id) { return static_cast<uint16_t>(id); }
};
template <>
struct Elem<Big> {
  static Big make(uint64_t id) {
    Big b;
    for (uint32_t i = 0; i < 67; ++i) {
      b.w[i] = static_cast<uint32_t>(id) + i * 1000003u;
    }
    return b;
  }
  static uint64_t id(Big const& v) {
    Big const b = make(v.w[0]);
    return std::memcmp(&b, &v, sizeof b) == 0 ? v.w[0] : ~0ull;
  }
  static uint64_t norm(uint64_t id) { return static_cast<uint32_t>(id); }
};
template <typename T>
struct ElemA {
  static T make(uint64_t id) { return T(static_cast<uint32_t>(id)); }
  static uint64_t id(T const& v) { return v.a; }
  static uint64_t norm(uint64_t id) { return static_cast<uint32_t>(id); }
};
template <>
struct Elem<Init> : ElemA<Init> {};
template <>
struct Elem<Odd> : ElemA<Odd> {};

// Constructs an adapter through one of the four constructors.
template <typename T>
circular_buffer_adapter<T> attach(pbt::Case& c, T* data, size_t cap,
                                  size_t first, size_t count) {
  using A = circular_buffer_adapter<T>;
  size_t const k = c.draw(first == 0 && count == 0 ? 4 : 2);
  switch (k) {
  case 0:
    return A(data, cap, first, count);
  case 1:
    return A(data, data + cap, data + first, count);
  case 2:
    return A(data, cap);
  default:
    return A(data, data + cap);
  }
}
