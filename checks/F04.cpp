// F04: function targets live in place with correct size and alignment.
#include <cstdlib>
#include <new>
#include <utility>
#include <vector>

#include <embedded/function.h>

#include "pbt.h"

using embedded::function;

static uint64_t g_allocations;
static bool g_counting;

void* operator new(size_t n) {
  g_allocations += g_counting;
  void* p = std::malloc(n ? n : 1);
  if (!p) {
    std::abort();
  }
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void* operator new(size_t n, std::align_val_t a) {
  g_allocations += g_counting;
  void* p = nullptr;
  if (posix_memalign(&p, static_cast<size_t>(a) < 8 ? 8 : static_cast<size_t>(a),
                     n ? n : 1)) {
    std::abort();
  }
  return p;
}
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept {
  std::free(p);
}

namespace {

struct Seen {
  void const* self;
  size_t size, align;
  bool intact;
  uint64_t stamp;
};
Seen* S;

// All bytes of a target carry a pattern derived from its stamp; each call
// checks them and (if it may) replaces them.
template <size_t Size, size_t Align>
struct alignas(Align) Blob {
  unsigned char b[Size];
  static unsigned char pat(uint64_t stamp, size_t i) {
    return static_cast<unsigned char>(pbt::mix(stamp * 1000 + i / 8) >>
                                      (8 * (i % 8)));
  }
  explicit Blob(uint64_t stamp) { fill(stamp); }
  void fill(uint64_t stamp) {
    for (size_t i = 0; i < Size; ++i) {
      b[i] = pat(stamp, i);
    }
  }
  void report(uint64_t expected) const {
    S->self = this;
    S->size = sizeof(Blob);
    S->align = Align;
    S->intact = true;
    for (size_t i = 0; i < Size; ++i) {
      S->intact &= b[i] == pat(expected, i);
    }
  }
  void operator()(uint64_t expected, uint64_t next) {
    report(expected);
    fill(next);
  }
  void operator()(uint64_t expected, uint64_t) const { report(expected); }
};

// The same with a non-trivial move that verifies its own position.
template <size_t Size, size_t Align>
struct Placed : Blob<Size, Align> {
  explicit Placed(uint64_t s)
      : Blob<Size, Align>(s) {}
  Placed(Placed&& o) noexcept
      : Blob<Size, Align>(0) {
    if (reinterpret_cast<uintptr_t>(this) % Align) {
      misplaced() = true;
    }
    for (size_t i = 0; i < Size; ++i) {
      this->b[i] = o.b[i];
      o.b[i] = static_cast<unsigned char>(~o.b[i]);
    }
  }
  ~Placed() {
    for (size_t i = 0; i < Size; ++i) {
      this->b[i] = 0xdd;
    }
  }
  static bool& misplaced() {
    static bool m = false;
    return m;
  }
};

struct Result {
  bool has;
  uint64_t stamp;
};

template <bool Const>
struct SigOf {
  using type = void(uint64_t, uint64_t);
};
template <>
struct SigOf<true> {
  using type = void(uint64_t, uint64_t) const;
};

template <size_t Cap, size_t Al, bool Const>
struct Bench {
  using F = function<typename SigOf<Const>::type, Cap, Al>;
  static constexpr size_t kSlots = 3;
  static constexpr size_t kGuard = 128;

  // wrappers in a row, surrounded by canaries, at an address that is aligned
  // for the wrapper but not for more
  struct Region {
    unsigned char* raw;
    unsigned char* base;
    size_t total;
    Region() {
      total = kGuard * 2 + kSlots * sizeof(F) + 256;
      raw = static_cast<unsigned char*>(std::malloc(total + 512));
      uintptr_t p = reinterpret_cast<uintptr_t>(raw) + 256;
      p = (p + 255) / 256 * 256 + alignof(F); // alignof(F) and not its double
      base = reinterpret_cast<unsigned char*>(p);
      std::memset(raw, 0xa7, total + 512);
    }
    ~Region() { std::free(raw); }
    F* at(size_t i) { return reinterpret_cast<F*>(base + i * sizeof(F)); }
    bool guards() const {
      unsigned char const* e = base + kSlots * sizeof(F);
      for (unsigned char const* q = raw; q < base; ++q) {
        if (*q != 0xa7) {
          return false;
        }
      }
      for (; e < raw + total + 512; ++e) {
        if (*e != 0xa7) {
          return false;
        }
      }
      return true;
    }
  };

  template <typename T>
  static void put(F& f, uint64_t stamp, unsigned how) {
    if (how == 0) {
      f = T(stamp);
    } else if (how == 1) {
      f.~F();
      new (static_cast<void*>(&f)) F(T(stamp));
    } else {
      F tmp{T(stamp)};
      f = std::move(tmp);
    }
  }

  using Put = void (*)(F&, uint64_t, unsigned);

  template <size_t Size, size_t Align,
            bool Fits = (Size <= Cap && Al % Align == 0 && Size % Align == 0)>
  struct Add {
    static void go(std::vector<Put>& v) {
      v.push_back(&put<Blob<Size, Align>>);
      v.push_back(&put<Placed<Size, Align>>);
    }
  };
  template <size_t Size, size_t Align>
  struct Add<Size, Align, false> {
    static void go(std::vector<Put>&) {}
  };

  static std::vector<Put>& puts() {
    static std::vector<Put> v;
    if (v.empty()) {
      Add<1, 1>::go(v);
      Add<Cap, 1>::go(v);
      Add<Cap / 2 + (Cap == 1), 1>::go(v);
      Add<Cap / Al * Al + (Cap < Al), (Cap < Al) ? 1 : Al>::go(v);
      Add<2, 2>::go(v);
      Add<8, 8>::go(v);
      Add<24, 8>::go(v);
      Add<16, 16>::go(v);
      Add<64, 64>::go(v);
    }
    return v;
  }

  static void run(pbt::Case& c) {
    static_assert(alignof(F) % Al == 0, "wrapper alignment");
    static_assert(sizeof(F) >= Cap, "wrapper size");
    std::vector<Put>& targets = puts();
    Region r;
    Result model[kSlots] = {};
    uint64_t next = 1;
    unsigned moves = 0, calls = 0;
    for (size_t i = 0; i < kSlots; ++i) {
      new (static_cast<void*>(r.at(i))) F();
    }
    size_t const steps = static_cast<size_t>(c.range(2, 16));
    for (size_t k = 0; k < steps; ++k) {
      size_t const i = static_cast<size_t>(c.draw(kSlots)),
                   j = static_cast<size_t>(c.draw(kSlots));
      g_allocations = 0;
      switch (c.weighted({4, 5, 2, 2, 4, 1})) {
      case 0: {
        size_t const t = static_cast<size_t>(c.draw(targets.size()));
        unsigned const how = static_cast<unsigned>(c.draw(3));
        c.trace("%zu = target %zu; ", i, t);
        g_counting = true;
        targets[t](*r.at(i), next, how);
        g_counting = false;
        model[i] = {true, next++};
        break;
      }
      case 1:
        c.trace("%zu = move(%zu); ", i, j);
        g_counting = true;
        *r.at(i) = std::move(*r.at(j));
        g_counting = false;
        if (i != j) {
          model[i] = model[j];
          model[j].has = false;
        }
        ++moves;
        break;
      case 2: {
        c.trace("move %zu through the stack to %zu; ", i, j);
        g_counting = true;
        {
          F tmp(std::move(*r.at(i)));
          *r.at(j) = std::move(tmp);
        }
        g_counting = false;
        Result m = model[i];
        model[i].has = false;
        model[j] = m;
        ++moves;
        break;
      }
      case 3:
        c.trace("swap(%zu, %zu); ", i, j);
        g_counting = true;
        std::swap(*r.at(i), *r.at(j));
        g_counting = false;
        std::swap(model[i], model[j]);
        ++moves;
        break;
      case 4:
        if (model[i].has) {
          Seen s{};
          S = &s;
          uint64_t const n = next++;
          c.trace("call %zu; ", i);
          g_counting = true;
          (*r.at(i))(model[i].stamp, n);
          g_counting = false;
          ++calls;
          auto const p = reinterpret_cast<uintptr_t>(s.self);
          auto const f = reinterpret_cast<uintptr_t>(r.at(i));
          PBT_CHECK(c, s.self, "no target was called");
          PBT_CHECK(c, p >= f && p + s.size <= f + sizeof(F),
                    "the target lives at offset %ld of its wrapper, size %zu "
                    "in %zu",
                    static_cast<long>(p - f), s.size, sizeof(F));
          PBT_CHECK(c, p % s.align == 0,
                    "the target is misaligned: offset %ld in a wrapper "
                    "aligned to %zu needs %zu",
                    static_cast<long>(p - f), alignof(F), s.align);
          PBT_CHECK(c, s.intact, "the target's bytes have changed");
          if (!Const) {
            model[i].stamp = n;
          }
        }
        break;
      default:
        *r.at(i) = nullptr;
        model[i].has = false;
      }
      PBT_CHECK(c, g_allocations == 0, "memory was allocated");
      for (size_t x = 0; x < kSlots; ++x) {
        PBT_CHECK(c, static_cast<bool>(*r.at(x)) == model[x].has,
                  "wrapper %zu: emptiness", x);
      }
      PBT_CHECK(c, r.guards(), "memory around the wrappers was written");
    }
    for (size_t x = 0; x < kSlots; ++x) {
      if (model[x].has) {
        Seen s{};
        S = &s;
        (*r.at(x))(model[x].stamp, 0);
        PBT_CHECK(c, s.self && s.intact, "the target's bytes have changed");
      }
      r.at(x)->~F();
    }
    PBT_CHECK(c, r.guards(), "memory around the wrappers was written");
    if (moves && calls) {
      c.nontrivial();
    }
  }
};

struct Entry {
  void (*run)(pbt::Case&);
  size_t cap, al;
};
std::vector<Entry>& table() {
  static std::vector<Entry> t;
  return t;
}
template <size_t Cap>
void row() {
  table().push_back({&Bench<Cap, 1, false>::run, Cap, 1});
  table().push_back({&Bench<Cap, 4, true>::run, Cap, 4});
  table().push_back({&Bench<Cap, 8, false>::run, Cap, 8});
  table().push_back({&Bench<Cap, 16, true>::run, Cap, 16});
  table().push_back({&Bench<Cap, 64, false>::run, Cap, 64});
}

PBT_PROP(placement, 400000, 20000000) {
  if (table().empty()) {
    row<1>();
    row<8>();
    row<9>();
    row<24>();
    row<31>();
    row<64>();
    row<200>();
  }
  Entry const& e = table()[static_cast<size_t>(c.draw(table().size()))];
  c.trace("capacity %zu alignment %zu; ", e.cap, e.al);
  e.run(c);
}

// The default capacity and alignment: three pointers.
PBT_PROP(defaults, 20000, 500000) {
  using F = function<void(uint64_t, uint64_t)>;
  constexpr size_t n = 3 * sizeof(void*);
  F f{Blob<n, alignof(void*)>(1)};
  F g(std::move(f));
  Seen s{};
  S = &s;
  uint64_t const x = c.bits() | 1;
  g(1, x);
  PBT_CHECK(c, s.intact, "bytes");
  f = std::move(g);
  f(x, 0);
  PBT_CHECK(c, s.intact, "bytes");
  c.nontrivial();
}

} // namespace
