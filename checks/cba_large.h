// Large buffers: offsets and counts that do not fit narrow integer types.
// The model is just (capacity, first, count): logical element i has the address
// data + (first + i) % capacity. Only the memory around the positions in use is
// ever touched, so the capacities may be far beyond the memory of the machine.
#pragma once

#include <sys/mman.h>

#include "cba_common.h"

enum class Large { queue, bulk, iterators, attach };

struct Region {
  unsigned char* base{nullptr};
  size_t size{0};
  Region() {
    for (size_t s : {size_t(1) << 35, size_t(1) << 31, size_t(1) << 23}) {
      void* p = mmap(nullptr, s, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p != MAP_FAILED) {
        base = static_cast<unsigned char*>(p);
        size = s;
        break;
      }
    }
  }
  void forget() { madvise(base, size, MADV_DONTNEED); }
  static Region& get() {
    static Region r;
    return r;
  }
};

template <typename T, Large L>
struct LargeMachine {
  using A = circular_buffer_adapter<T>;
  using E = Elem<T>;

  pbt::Case& c;
  bool huge;
  T* data;
  size_t cap, first, count;
  A a;
  bool wide{false};

  LargeMachine(pbt::Case& cc, bool h)
      : c(cc)
      , huge(h)
      , data(reinterpret_cast<T*>(Region::get().base + 4096))
      , cap(capacity())
      , first(static_cast<size_t>(near(cap - 1)))
      , count(static_cast<size_t>(near(cap)))
      , a(attach<T>(cc, data, cap, first, count)) {
    c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
  }

  size_t capacity() {
    size_t const limit = (Region::get().size - 8192) / sizeof(T);
    uint64_t x;
    if (huge) {
      x = c.pick<uint64_t>({1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 31),
                            (1ull << 31) + (1ull << 30)});
      x += c.draw(200000) - 100000;
    } else {
      switch (c.draw(4)) {
      case 0: x = (1u << 15) + c.draw(64) - 32; break;
      case 1: x = (1u << 16) + c.draw(64) - 32; break;
      case 2: x = (1u << 17) + c.draw(64) - 32; break;
      default: x = c.range(1000, 400000);
      }
    }
    return static_cast<size_t>(std::min<uint64_t>(x, limit));
  }

  // a number in [0, max], often close to either end or to a power of two
  uint64_t near(uint64_t max) {
    uint64_t x;
    switch (c.draw(5)) {
    case 0: return c.draw(max + 1);
    case 1: return c.draw(std::min<uint64_t>(max, 70) + 1);
    case 2: return max - c.draw(std::min<uint64_t>(max, 70) + 1);
    case 3:
      x = (1ull << c.range(huge ? 28 : 14, huge ? 33 : 18)) + c.draw(9) - 4;
      return std::min(x, max);
    default: return max / 2 + c.draw(std::min<uint64_t>(max / 2, 70) + 1);
    }
  }

  T* at(size_t i) { return data + (first + i) % cap; }

  void expect(bool cond, char const* what) {
    PBT_CHECK(c, cond, "%s (capacity %zu, first %zu, count %zu)", what, cap,
              first, count);
  }

  void check() {
    expect(a.size() == count && a.capacity() == cap &&
               a.remaining() == cap - count && a.empty() == (count == 0) &&
               a.full() == (count == cap),
           "size()/capacity()/remaining()");
    if (count == 0) {
      expect(a.begin() == a.end(), "begin() of an empty buffer");
      return;
    }
    expect(&a.front() == at(0) && &a.back() == at(count - 1),
           "front()/back() at a wrong address");
    for (int k = 0; k < 3; ++k) {
      size_t const i = static_cast<size_t>(near(count - 1));
      expect(&a[i] == at(i) && &a.at(i) == at(i),
             "element access at a wrong address");
      if (L == Large::iterators) {
        iterators(i);
      }
      if (L == Large::attach) {
        size_t const r = a.raw_index(a.begin() + static_cast<std::ptrdiff_t>(i));
        expect(r == (first + i) % cap, "raw_index() of an element");
        if (count < cap) {
          expect(a.raw_index(a.end()) == (first + count) % cap,
                 "raw_index() of end()");
        }
      }
    }
  }

  void iterators(size_t i) {
    using D = std::ptrdiff_t;
    size_t const j = static_cast<size_t>(near(count));
    auto const x = a.begin() + static_cast<D>(i);
    auto const y = a.begin() + static_cast<D>(j);
    expect(&*x == at(i), "begin() + n");
    expect(x - a.begin() == static_cast<D>(i) &&
               a.end() - x == static_cast<D>(count - i) &&
               y - x == static_cast<D>(j) - static_cast<D>(i),
           "iterator difference");
    expect(x + (static_cast<D>(j) - static_cast<D>(i)) == y &&
               y - (static_cast<D>(j) - static_cast<D>(i)) == x,
           "adding the difference");
    expect((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) &&
               (x >= y) == (i >= j) && (x == y) == (i == j),
           "iterator comparison");
    expect(&a.begin()[static_cast<D>(i)] == at(i) &&
               &*(a.end() - static_cast<D>(count - i)) == at(i),
           "subscript");
    if (j < count) {
      expect(&x[static_cast<D>(j) - static_cast<D>(i)] == at(j),
             "subscript relative to an element");
    }
    auto r = a.rbegin() + static_cast<D>(count - 1 - i);
    expect(&*r == at(i), "reverse iterator");
    typename A::const_iterator cx = x;
    ++cx;
    expect(i + 1 == count ? cx == a.cend() : &*cx == at(i + 1), "++");
    --cx;
    expect(&*cx == at(i), "--");
  }

  void push(bool front) {
    uint64_t const id = E::norm(c.draw(250));
    if (front) {
      a.push_front(E::make(id));
      first = (first + cap - 1) % cap;
    } else {
      a.push_back(E::make(id));
    }
    ++count;
    c.trace(" push_%s", front ? "front" : "back");
    expect(E::id(*at(front ? 0 : count - 1)) == id,
           "the pushed element is not where it should be");
  }

  void pop(bool front, size_t n) {
    c.trace(" pop_%s(%zu)", front ? "front" : "back", n);
    if (front) {
      a.pop_front(n);
      first = (first + n) % cap;
    } else {
      a.pop_back(n);
    }
    count -= n;
  }

  void reattach() {
    c.trace(" attach");
    size_t const r = count ? a.raw_index(a.begin()) : first;
    a = attach<T>(c, data, cap, r, a.size());
  }

  static uint64_t tag(size_t i, uint64_t seed) {
    return E::norm((i * 2654435761u) % 241 + seed);
  }

  size_t run_length(size_t max) {
    return static_cast<size_t>(
        huge ? c.draw(std::min<size_t>(max, 1000) + 1) : near(max));
  }

  void bulk_in(bool front) {
    size_t const n = run_length(cap - count);
    uint64_t const seed = c.draw(10);
    std::vector<T> src(n);
    for (size_t i = 0; i < n; ++i) {
      src[i] = E::make(tag(i, seed));
    }
    c.trace(" copy_in_%s(%zu)", front ? "front" : "back", n);
    T const* p = src.data();
    if (front) {
      a.copy_in_front(p, n);
      first = (first + cap - n) % cap;
    } else {
      a.copy_in_back(p, n);
    }
    size_t const off = front ? 0 : count;
    count += n;
    for (size_t i = 0; i < n; ++i) {
      expect(E::id(*at(off + i)) == tag(i, seed), "copy_in lost an element");
    }
    wide = wide || n > 256;
  }

  void bulk_out(bool front) {
    size_t const n = run_length(count);
    size_t const off = front ? 0 : count - n;
    uint64_t const seed = c.draw(10);
    for (size_t i = 0; i < n; ++i) {
      *at(off + i) = E::make(tag(i, seed));
    }
    c.trace(" copy_out_%s(%zu)", front ? "front" : "back", n);
    std::vector<T> dst(n + 1);
    dst[n] = E::make(99);
    if (front) {
      a.copy_out_front(dst.data(), n);
      first = (first + n) % cap;
    } else {
      a.copy_out_back(dst.data(), n);
    }
    count -= n;
    for (size_t i = 0; i < n; ++i) {
      expect(E::id(dst[i]) == tag(i, seed), "copy_out delivered a wrong element");
    }
    expect(E::id(dst[n]) == E::norm(99), "copy_out wrote past its destination");
    wide = wide || n > 256;
  }

  void range() {
    size_t const b = static_cast<size_t>(near(count));
    size_t const n = run_length(count - b);
    uint64_t const seed = c.draw(10);
    auto const f = a.begin() + static_cast<std::ptrdiff_t>(b);
    auto const l = f + static_cast<std::ptrdiff_t>(n);
    std::vector<T> src(n), dst(n + 1);
    for (size_t i = 0; i < n; ++i) {
      src[i] = E::make(tag(i, seed));
    }
    dst[n] = E::make(99);
    if (b > 0) {
      *at(b - 1) = E::make(97);
    }
    if (b + n < count) {
      *at(b + n) = E::make(98);
    }
    c.trace(" copy[%zu,+%zu)", b, n);
    T const* p = src.data();
    a.copy_in(f, l, p);
    for (size_t i = 0; i < n; ++i) {
      expect(E::id(*at(b + i)) == tag(i, seed),
             "copy_in of a range lost an element");
    }
    expect((b == 0 || E::id(*at(b - 1)) == E::norm(97)) &&
               (b + n == count || E::id(*at(b + n)) == E::norm(98)),
           "copy_in of a range changed another element");
    a.copy_out(f, l, dst.data());
    for (size_t i = 0; i < n; ++i) {
      expect(E::id(dst[i]) == tag(i, seed),
             "copy_out of a range delivered a wrong element");
    }
    expect(E::id(dst[n]) == E::norm(99), "copy_out wrote past its destination");
    wide = wide || n > 256;
  }

  void run() {
    check();
    int const steps = static_cast<int>(c.range(1, huge ? 4 : 8));
    for (int s = 0; s < steps; ++s) {
      unsigned const bulk = L == Large::bulk ? 3 : 0;
      unsigned const again = L == Large::attach ? 3 : 0;
      switch (c.weighted({2, 2, 3, again, bulk, bulk, bulk, bulk, bulk})) {
      case 0: if (count < cap) { push(false); } break;
      case 1: if (count < cap) { push(true); } break;
      case 2: {
        bool const front = c.flip();
        pop(front, static_cast<size_t>(near(count)));
        break;
      }
      case 3: reattach(); break;
      case 4: bulk_in(false); break;
      case 5: bulk_in(true); break;
      case 6: bulk_out(false); break;
      case 7: bulk_out(true); break;
      default: range();
      }
      check();
    }
    if (L != Large::bulk || wide) {
      c.nontrivial();
    }
    if (first + count > cap) {
      PBT_LABEL("a large buffer that wraps around");
    }
    Region::get().forget();
  }
};

template <typename T, Large L>
void large(pbt::Case& c) {
  LargeMachine<T, L>(c, false).run();
}
template <typename T, Large L>
void huge(pbt::Case& c) {
  LargeMachine<T, L>(c, true).run();
}

#define CBA_LARGE(kind)                                                        \
  PBT_REGISTER(large_u8, (&large<uint8_t, kind>), 300, 20000);                 \
  PBT_REGISTER(large_pod12, (&large<Pod12, kind>), 200, 10000);                \
  PBT_REGISTER(huge_u8, (&huge<uint8_t, kind>), 24, 2000);                     \
  PBT_REGISTER(huge_u32, (&huge<uint32_t, kind>), 24, 2000)
