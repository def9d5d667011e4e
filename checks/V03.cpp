// V03: varint bounded encoding never overruns its buffer.
#include "varint_common.h"

namespace {

template <typename T>
void check_space(pbt::Case& c, T v, size_t space, unsigned kinds,
                 uint8_t fill) {
  Bytes const ref = ref_encode(v);
  size_t const len = ref.size();
  bool const fits = space >= len;
  c.trace("value %lld (%zu bytes) into %zu bytes", show(v), len, space);
  {
    // [begin, end) lies inside a larger block
    Bytes mem(space + 40, fill);
    uint8_t* b = mem.data() + 20;
    uint8_t* r = varint::encode(v, b, b + space);
    PBT_CHECK(c, fits ? r == b + len : r == b,
              "encode(%lld) into %zu bytes returned +%td", show(v), space,
              r - b);
    for (size_t i = 0; i < mem.size(); ++i) {
      if (fits && i >= 20 && i < 20 + len) {
        PBT_CHECK(c, mem[i] == ref[i - 20], "encode(%lld): byte %zu", show(v),
                  i - 20);
      } else if (fits || i < 20 || i >= 20 + space) {
        PBT_CHECK(c, mem[i] == fill, "encode(%lld) into %zu bytes wrote at %td",
                  show(v), space, static_cast<std::ptrdiff_t>(i) - 20);
      }
    }
  }
  if (kinds & 1) {
    Bytes init(space, fill);
    Exact m(init.data(), space);
    uint8_t* r = varint::encode(v, m.data(), m.end());
    PBT_CHECK(c, (r == m.data()) == !fits, "encode(%lld) into %zu bytes",
              show(v), space);
  }
  if (kinds & 2) {
    Tape t(space);
    using W = TapeIt<true>;
    W r = varint::encode(v, W(&t, 0), W(&t, space));
    PBT_CHECK(c, !t.error, "encode(%lld) into %zu bytes: %s", show(v), space,
              t.error);
    PBT_CHECK(c, r.index() == (fits ? len : 0),
              "encode(%lld) into %zu bytes through a forward iterator returned "
              "+%zu",
              show(v), space, r.index());
    for (size_t i = len; fits && i < space; ++i) {
      PBT_CHECK(c, !t.written[i], "byte %zu after the encoding was touched", i);
    }
  }
  if (kinds & 4) {
    // sub-range of a ring buffer
    using A = embedded::circular_buffer_adapter<uint8_t>;
    size_t const cap = space + 5;
    Bytes mem(cap, fill);
    A a(mem.data(), cap, (kinds * 7u) % cap, cap);
    auto b = a.begin() + 2;
    auto r = varint::encode(v, b, b + static_cast<std::ptrdiff_t>(space));
    PBT_CHECK(c, r - b == static_cast<std::ptrdiff_t>(fits ? len : 0),
              "encode(%lld) into %zu slots of a ring buffer returned +%td",
              show(v), space, r - b);
    for (size_t i = 0; i < cap; ++i) {
      if (fits && i >= 2 && i < 2 + len) {
        PBT_CHECK(c, a[i] == ref[i - 2], "ring buffer byte %zu", i);
      } else if (fits || i < 2 || i >= 2 + space) {
        PBT_CHECK(c, a[i] == fill, "ring buffer byte %zu was touched", i);
      }
    }
    std::forward_list<uint8_t> fl(space, fill);
    auto fr = varint::encode(v, fl.begin(), fl.end());
    PBT_CHECK(c, static_cast<size_t>(std::distance(fl.begin(), fr)) ==
                     (fits ? len : 0),
              "encode(%lld) into a forward_list of %zu", show(v), space);
  }
}

template <typename T>
void prop_random(pbt::Case& c) {
  T v = gen_value<T>(c);
  size_t len = ref_encode(v).size();
  size_t space;
  if (c.weighted({4, 1}) == 0) {
    int64_t s = static_cast<int64_t>(len) + c.range(-2, 2);
    space = static_cast<size_t>(s < 0 ? 0 : s);
  } else {
    space = static_cast<size_t>(c.draw(24));
  }
  unsigned kinds = static_cast<unsigned>(c.draw(64));
  check_space(c, v, space, kinds,
              c.pick<uint8_t>({0xee, 0x00, 0xff, 0x80, 0x01}));
  if (len > 1 || space == 0) {
    c.nontrivial();
  }
  if (space < len) {
    PBT_LABEL("does not fit");
  } else if (space == len) {
    PBT_LABEL("fits exactly");
  } else {
    PBT_LABEL("room to spare");
  }
}

template <typename T>
void prop_all(pbt::Case& c) {
  using U = typename VInfo<T>::U;
  uint64_t block = c.draw((1ull << VInfo<T>::bits) / 64);
  for (unsigned i = 0; i < 64; ++i) {
    T v = static_cast<T>(static_cast<U>(block * 64 + i));
    for (size_t s = 0; s <= VInfo<T>::max_len + 1; ++s) {
      check_space(c, v, s, i % 4 == 0 ? 3u : i % 16 == 1 ? 7u : 0u, 0xee);
    }
  }
  c.nontrivial();
}

template <typename T>
void prop_edges(pbt::Case& c) {
  using U = typename VInfo<T>::U;
  unsigned const k = static_cast<unsigned>(c.draw(VInfo<T>::bits));
  U const p = static_cast<U>(U{1} << k);
  for (int d = -2; d <= 2; ++d) {
    U const u = static_cast<U>(p + static_cast<U>(d));
    for (U x : {u, static_cast<U>(~u), static_cast<U>(U{0} - u)}) {
      for (size_t s = 0; s <= VInfo<T>::max_len + 2; ++s) {
        check_space(c, static_cast<T>(x), s, 7, 0xee);
        check_space(c, static_cast<T>(x), s, 7, 0x00);
      }
    }
  }
  c.nontrivial();
}

// A buffer filled with encodings until one does not fit: nothing is lost.
template <typename T>
void prop_fill(pbt::Case& c) {
  Bytes mem(static_cast<size_t>(c.draw(40)), 0xee);
  uint8_t* p = mem.data();
  uint8_t* const e = mem.data() + mem.size();
  std::vector<T> vs;
  for (;;) {
    T v = gen_value<T>(c);
    uint8_t* n = varint::encode(v, p, e);
    size_t len = ref_encode(v).size();
    PBT_CHECK(c, (n == p) == (static_cast<size_t>(e - p) < len),
              "encode(%lld) into the last %td bytes", show(v), e - p);
    if (n == p) {
      break;
    }
    vs.push_back(v);
    p = n;
  }
  uint8_t* q = mem.data();
  for (auto v : vs) {
    T x{};
    uint8_t* n = varint::decode(x, q, p);
    PBT_CHECK(c, n != q && x == v, "a later encode changed earlier values");
    q = n;
  }
  PBT_CHECK(c, q == p, "position");
  if (vs.size() > 1) {
    c.nontrivial();
  }
}

#define X(n, t)                                                                \
  void random_##n(pbt::Case& c) { prop_random<t>(c); }                         \
  PBT_REGISTER(random_##n, &random_##n, 60000, 6000000);                       \
  void fill_##n(pbt::Case& c) { prop_fill<t>(c); }                             \
  PBT_REGISTER(fill_##n, &fill_##n, 10000, 500000);                            \
  void edges_##n(pbt::Case& c) { prop_edges<t>(c); }                           \
  PBT_REGISTER_ENUM(edges_##n, &edges_##n, 8 * sizeof(t), 8 * sizeof(t));
VARINT_TYPES(X)
#undef X

#define X(n, t)                                                                \
  void all_##n(pbt::Case& c) { prop_all<t>(c); }                               \
  PBT_REGISTER_ENUM(all_##n, &all_##n, (1u << (8 * sizeof(t))) / 64,           \
                    (1u << (8 * sizeof(t))) / 64);
X(u8, uint8_t)
X(i8, int8_t)
X(ch, char)
X(u16, uint16_t)
X(i16, int16_t)
X(c16, char16_t)
#undef X

} // namespace
