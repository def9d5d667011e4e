// V01: varint encoding round-trips and is canonical and minimal.
#include "varint_common.h"

namespace {

// Decodes `in` (an encoding of v, possibly followed by other bytes) through
// one kind of iterator.
template <typename T, typename It>
void dec(pbt::Case& c, char const* kind, It b, It e, T v, size_t len) {
  T out = static_cast<T>(~static_cast<typename VInfo<T>::U>(v));
  It r = varint::decode(out, b, e);
  PBT_CHECK(c, r != b, "decode through %s rejected the encoding of %lld", kind,
            show(v));
  size_t n = 0;
  for (It i = b; i != r; ++i) {
    ++n;
    PBT_CHECK(c, n <= len, "decode through %s returned a wrong position", kind);
  }
  PBT_CHECK(c, n == len, "decode through %s of %lld used %zu of %zu bytes",
            kind, show(v), n, len);
  PBT_CHECK(c, out == v, "decode through %s returned %lld instead of %lld",
            kind, show(out), show(v));
}

template <typename T>
void check_value(pbt::Case& c, T v, Bytes const& tail, unsigned kinds,
                 size_t ring_first) {
  Bytes const ref = ref_encode(v);
  c.trace("value %lld, encoding %s, tail %s", show(v), hex(ref).c_str(),
          hex(tail).c_str());
  size_t const len = ref.size();
  PBT_CHECK(c, varint::size(v) == len, "size(%lld) is %zu, not %zu", show(v),
            varint::size(v), len);

  // pointers, without and with range check; encodes in front of `tail`
  Bytes whole = ref;
  whole.insert(whole.end(), tail.begin(), tail.end());
  {
    Bytes init(len, 0x5c);
    init.insert(init.end(), tail.begin(), tail.end());
    Exact m(init.data(), init.size());
    uint8_t* r = varint::encode(v, m.data());
    PBT_CHECK(c, r == m.data() + len, "encode(%lld) returned +%td, not %zu",
              show(v), r - m.data(), len);
    PBT_CHECK(c, !std::memcmp(m.data(), whole.data(), whole.size()),
              "encode(%lld) wrote %s instead of %s", show(v),
              hex(m.data(), whole.size()).c_str(), hex(whole).c_str());
    Exact m2(init.data(), init.size());
    r = varint::encode(v, m2.data(), m2.end());
    PBT_CHECK(c, r == m2.data() + len && !std::memcmp(m2.data(), whole.data(),
                                                      whole.size()),
              "range-checked encode(%lld)", show(v));
    // decoding: exact, with tail, through const pointers
    Exact d(ref.data(), ref.size());
    dec<T, uint8_t const*>(c, "pointer", d.data(), d.end(), v, len);
    Exact d2(whole.data(), whole.size());
    dec<T, uint8_t*>(c, "pointer with tail", d2.data(), d2.end(), v, len);
  }
  if (kinds & 1) {
    Tape t(whole.size());
    using W = TapeIt<true>;
    using R = TapeIt<false>;
    W r = varint::encode(v, W(&t, 0));
    PBT_CHECK(c, !t.error && r.index() == len &&
                     std::equal(ref.begin(), ref.end(), t.data.begin()),
              "encode(%lld) through a forward iterator: %s", show(v),
              t.error ? t.error : "wrong bytes or position");
    for (size_t i = 0; i <= whole.size(); ++i) {
      PBT_CHECK(c, (t.written[i] != 0) == (i < len),
                "encode(%lld) through a forward iterator touched byte %zu",
                show(v), i);
    }
    std::copy(whole.begin(), whole.end(), t.data.begin());
    dec<T, R>(c, "forward iterator", R(&t, 0), R(&t, whole.size()), v, len);
    PBT_CHECK(c, !t.error, "decode through a forward iterator: %s", t.error);
  }
  if (kinds & 2) {
    Bytes pre = tail; // back inserters append
    varint::encode(v, std::back_inserter(pre));
    Bytes want = tail;
    want.insert(want.end(), ref.begin(), ref.end());
    PBT_CHECK(c, pre == want, "encode(%lld) through a back inserter", show(v));
    std::deque<uint8_t> dq(tail.begin(), tail.end());
    varint::encode(v, std::back_inserter(dq));
    PBT_CHECK(c, Bytes(dq.begin(), dq.end()) == want,
              "encode(%lld) through a deque back inserter", show(v));
    dec<T>(c, "deque iterator",
           dq.cbegin() + static_cast<std::ptrdiff_t>(tail.size()), dq.cend(),
           v, len);
  }
  if (kinds & 4) {
    // circular buffer: through its iterators, at any position in the ring
    size_t const cap = whole.size() + 3;
    Bytes mem(cap, 0x77);
    using A = embedded::circular_buffer_adapter<uint8_t>;
    A a(mem.data(), cap, ring_first % cap, whole.size());
    auto r = varint::encode(v, a.begin());
    PBT_CHECK(c, static_cast<size_t>(r - a.begin()) == len &&
                     std::equal(ref.begin(), ref.end(), a.begin()),
              "encode(%lld) through circular buffer iterators", show(v));
    std::copy(whole.begin(), whole.end(), a.begin());
    dec<T, A::iterator>(c, "circular buffer iterator", a.begin(), a.end(), v,
                        len);
    dec<T, A::const_iterator>(c, "circular buffer const iterator", a.cbegin(),
                              a.cend(), v, len);
    Bytes mem2(cap, 0x77);
    A b(mem2.data(), cap, ring_first % cap, 0);
    varint::encode(v, std::back_inserter(b));
    PBT_CHECK(c, b.size() == len && std::equal(ref.begin(), ref.end(),
                                               b.begin()),
              "encode(%lld) through a circular buffer back inserter", show(v));
  }
  if (kinds & 8) {
    std::forward_list<uint8_t> fl(whole.size(), 0);
    auto r = varint::encode(v, fl.begin());
    PBT_CHECK(c, static_cast<size_t>(std::distance(fl.begin(), r)) == len &&
                     std::equal(ref.begin(), ref.end(), fl.begin()),
              "encode(%lld) through forward_list", show(v));
    std::copy(whole.begin(), whole.end(), fl.begin());
    dec<T>(c, "forward_list", fl.cbegin(), fl.cend(), v, len);
    std::list<uint8_t> l(whole.begin(), whole.end());
    dec<T>(c, "list", l.begin(), l.end(), v, len);
    Bytes rev(whole.rbegin(), whole.rend());
    dec<T>(c, "reverse iterator", rev.crbegin(), rev.crend(), v, len);
  }
}

Bytes gen_tail(pbt::Case& c) {
  Bytes t(static_cast<size_t>(c.weighted({3, 1}) ? c.draw(14) : c.draw(2)));
  unsigned const style = static_cast<unsigned>(c.draw(3));
  for (auto& b : t) {
    b = style == 0   ? static_cast<uint8_t>(0x80 | c.draw(128))
        : style == 1 ? static_cast<uint8_t>(c.draw(256))
                     : static_cast<uint8_t>(c.pick<unsigned>({0, 255, 128}));
  }
  return t;
}

template <typename T>
void prop_random(pbt::Case& c) {
  T v = gen_value<T>(c);
  Bytes tail = gen_tail(c);
  unsigned kinds = static_cast<unsigned>(c.draw(16));
  size_t first = static_cast<size_t>(c.draw(32));
  check_value(c, v, tail, kinds, first);
  if (ref_encode(v).size() > 1) {
    c.nontrivial();
    PBT_LABEL("multi-byte encoding");
  }
  if (std::is_signed<T>::value && v < T{}) {
    PBT_LABEL("negative value");
  }
  if (ref_encode(v).size() == VInfo<T>::max_len) {
    PBT_LABEL("encoding of maximum length");
  }
}

// Streams of values of one type: encode back to back, decode in sequence.
template <typename T>
void prop_stream(pbt::Case& c) {
  std::vector<T> vs(static_cast<size_t>(c.range(2, 20)));
  Bytes out, want;
  for (auto& v : vs) {
    v = gen_value<T>(c);
    varint::encode(v, std::back_inserter(out));
    Bytes r = ref_encode(v);
    want.insert(want.end(), r.begin(), r.end());
  }
  PBT_CHECK(c, out == want, "encoding of a stream");
  Exact m(out.data(), out.size());
  uint8_t* p = m.data();
  for (auto v : vs) {
    T x{};
    uint8_t* n = varint::decode(x, p, m.end());
    PBT_CHECK(c, n != p && x == v, "decoding of a stream at +%td",
              p - m.data());
    p = n;
  }
  PBT_CHECK(c, p == m.end(), "decoding of a stream ends at +%td",
            p - m.data());
  c.nontrivial();
}

// All values of the 8 and 16 bit types (one case per 64 values).
template <typename T>
void prop_all(pbt::Case& c) {
  using U = typename VInfo<T>::U;
  uint64_t block = c.draw((1ull << VInfo<T>::bits) / 64);
  for (unsigned i = 0; i < 64; ++i) {
    T v = static_cast<T>(static_cast<U>(block * 64 + i));
    Bytes tail(i % 3, static_cast<uint8_t>(0xff - i % 5));
    check_value(c, v, tail, i % 8 == 0 ? 7u : 0u, i);
  }
  c.nontrivial();
}

// All bit lengths and neighbours of powers of two in the wide types.
template <typename T>
void prop_edges(pbt::Case& c) {
  using U = typename VInfo<T>::U;
  unsigned const k = static_cast<unsigned>(c.draw(VInfo<T>::bits));
  U const p = static_cast<U>(U{1} << k);
  for (int d = -3; d <= 3; ++d) {
    U const u = static_cast<U>(p + static_cast<U>(d));
    for (U x : {u, static_cast<U>(~u), static_cast<U>(U{0} - u)}) {
      check_value(c, static_cast<T>(x), Bytes(2, 0xff), 15, k);
    }
  }
  c.nontrivial();
}

// size() in constant expressions
template <typename T, T V>
struct ct_size : std::integral_constant<std::size_t, varint::size(V)> {};

template <typename T, unsigned K>
struct ct_check {
  using U = typename VInfo<T>::U;
  static constexpr U p = static_cast<U>(U{1} << K);
  static bool ok() {
    return one<static_cast<T>(p)>() &&
           one<static_cast<T>(static_cast<U>(p - 1))>() &&
           one<static_cast<T>(static_cast<U>(~p))>() &&
           one<static_cast<T>(static_cast<U>(U{0} - p))>() &&
           ct_check<T, K - 1>::ok();
  }
  template <T V>
  static bool one() {
    return ct_size<T, V>::value == ref_encode(V).size();
  }
};
template <typename T>
struct ct_check<T, ~0u> {
  static bool ok() { return true; }
};

template <typename T>
void prop_ct(pbt::Case& c) {
  c.draw(1);
  bool ok = ct_check<T, VInfo<T>::bits - 1>::ok();
  PBT_CHECK(c, ok, "size() differs in constant evaluation");
  c.nontrivial();
}

#define X(n, t)                                                                \
  void random_##n(pbt::Case& c) { prop_random<t>(c); }                         \
  PBT_REGISTER(random_##n, &random_##n, 60000, 6000000);                       \
  void stream_##n(pbt::Case& c) { prop_stream<t>(c); }                         \
  PBT_REGISTER(stream_##n, &stream_##n, 8000, 500000);                         \
  void ct_##n(pbt::Case& c) { prop_ct<t>(c); }                                 \
  PBT_REGISTER_ENUM(ct_##n, &ct_##n, 1, 1);                                    \
  void edges_##n(pbt::Case& c) { prop_edges<t>(c); }                           \
  PBT_REGISTER_ENUM(edges_##n, &edges_##n, 8 * sizeof(t), 8 * sizeof(t));
VARINT_TYPES(X)
#undef X

#define X(n, t)                                                                \
  void all_##n(pbt::Case& c) { prop_all<t>(c); }                               \
  PBT_REGISTER_ENUM(all_##n, &all_##n, (1u << (8 * sizeof(t))) / 64,           \
                    (1u << (8 * sizeof(t))) / 64);
X(u8, uint8_t)
X(i8, int8_t)
X(ch, char)
X(u16, uint16_t)
X(i16, int16_t)
X(c16, char16_t)
#undef X

} // namespace
