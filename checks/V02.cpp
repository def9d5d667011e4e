// V02: varint decoding of arbitrary bytes is safe and exact.
#include <sys/mman.h>

#include "varint_common.h"

namespace {

template <typename T>
struct Stats {
  bool accepted{false}, rejected{false};
};

// `decode` any byte string through several iterators and compare with the
// reference. Encodings longer than the maximum length of the type may be
// rejected or accepted, but not with a wrong value.
template <typename T, typename It>
void one(pbt::Case& c, char const* kind, It b, It e, RefDecoded const& ref,
         uint8_t const* p, size_t n, Stats<T>& st) {
  T out = static_cast<T>(0x55);
  It r = varint::decode(out, b, e);
  bool const must_accept =
      ref.terminated && ref.fits && ref.len <= VInfo<T>::max_len;
  bool const may_accept = ref.terminated && ref.fits;
  if (r == b) {
    PBT_CHECK(c, !must_accept, "%s: rejected %s", kind, hex(p, n).c_str());
    st.rejected = true;
    return;
  }
  PBT_CHECK(c, may_accept, "%s: accepted %s (%s) as %lld", kind,
            hex(p, n).c_str(), ref.terminated ? "too large" : "truncated",
            show(out));
  size_t k = 0;
  It i = b;
  while (i != r && k <= n) {
    ++i;
    ++k;
  }
  PBT_CHECK(c, k == ref.len, "%s: decoding %s ends at %zu, not %zu", kind,
            hex(p, n).c_str(), k, ref.len);
  PBT_CHECK(c, out == ref_unfold<T>(ref.raw),
            "%s: decoding %s yields %lld, not %lld", kind, hex(p, n).c_str(),
            show(out), show(ref_unfold<T>(ref.raw)));
  st.accepted = true;
}

// start of a page that must not be accessed, behind one that may
uint8_t* trap() {
  static uint8_t* const m = [] {
    void* r = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (r == MAP_FAILED || mprotect(static_cast<uint8_t*>(r) + 4096, 4096, PROT_NONE)) {
      std::abort();
    }
    return static_cast<uint8_t*>(r) + 4096;
  }();
  return m;
}

template <typename T>
Stats<T> check_bytes(pbt::Case& c, uint8_t const* p, size_t n, unsigned kinds) {
  Stats<T> st;
  RefDecoded const ref = ref_decode<T>(p, n);
  {
    Exact m(p, n);
    one<T, uint8_t const*>(c, "pointer", m.data(), m.end(), ref, p, n, st);
  }
  if (ref.terminated && (kinds & 4)) {
    // the bytes behind the encoding, which belong to the range, trap
    uint8_t* const q = trap() - ref.len;
    std::memcpy(q, p, ref.len);
    one<T, uint8_t const*>(c, "pointer to memory that may be read up to the end of the encoding", q, q + n, ref, p, n,
                           st);
  }
  if (kinds & 1) {
    Tape t(n);
    if (n) {
      std::memcpy(t.data.data(), p, n);
    }
    using R = TapeIt<false>;
    one<T, R>(c, "forward iterator", R(&t, 0), R(&t, n), ref, p, n, st);
    PBT_CHECK(c, !t.error, "decoding %s: %s", hex(p, n).c_str(), t.error);
    for (size_t i = ref.terminated ? ref.len : n; i < n; ++i) {
      PBT_CHECK(c, !t.read[i],
                "decoding %s reads byte %zu, after the terminating byte",
                hex(p, n).c_str(), i);
    }
  }
  if (kinds & 2) {
    // a full ring buffer is the input: one step too far is the start again
    using A = embedded::circular_buffer_adapter<uint8_t>;
    if (n > 0) {
      Bytes mem(n);
      size_t const first = kinds % n;
      for (size_t i = 0; i < n; ++i) {
        mem[(first + i) % n] = p[i];
      }
      A a(mem.data(), n, first, n);
      one<T, A::iterator>(c, "circular buffer", a.begin(), a.end(), ref, p, n,
                          st);
      one<T, A::const_iterator>(c, "circular buffer (const)", a.cbegin(),
                                a.cend(), ref, p, n, st);
    }
    std::deque<uint8_t> dq(p, p + n);
    one<T>(c, "deque", dq.begin(), dq.end(), ref, p, n, st);
    std::forward_list<uint8_t> fl(p, p + n);
    one<T>(c, "forward_list", fl.cbegin(), fl.cend(), ref, p, n, st);
  }
  return st;
}

Bytes gen_bytes(pbt::Case& c, unsigned max_len) {
  Bytes b;
  switch (c.weighted({3, 3, 3, 2})) {
  case 0: { // continuation run of around the maximum length, then anything
    size_t n = static_cast<size_t>(c.draw(max_len + 3));
    for (size_t i = 0; i < n; ++i) {
      b.push_back(static_cast<uint8_t>(
          0x80 | (c.flip() ? c.draw(128) : c.pick<uint64_t>({0, 127, 1, 64}))));
    }
    if (c.chance(3, 4)) {
      b.push_back(static_cast<uint8_t>(
          c.flip() ? c.draw(128) : 1ull << c.draw(7)));
    }
    break;
  }
  case 1: { // a valid encoding of a number of up to 70 bits, padded, mutated
    unsigned __int128 v = c.uint(64);
    v = v << c.draw(10);
    do {
      b.push_back(static_cast<uint8_t>(0x80 | (v % 128)));
      v /= 128;
    } while (v);
    for (uint64_t pad = c.weighted({4, 3, 2}) ? c.draw(4) : 0; pad > 0; --pad) {
      b.push_back(0x80);
    }
    b.back() = static_cast<uint8_t>(b.back() & 0x7f);
    if (c.chance(1, 4)) { // truncate
      b.resize(static_cast<size_t>(c.draw(b.size())));
    }
    if (!b.empty() && c.chance(1, 4)) { // flip a bit
      b[static_cast<size_t>(c.draw(b.size()))] ^=
          static_cast<uint8_t>(1u << c.draw(8));
    }
    break;
  }
  case 2: // runs
    while (b.size() < 20 && c.chance(4, 5)) {
      uint8_t v = c.pick<uint8_t>({0, 0x80, 0xff, 0x7f, 1, 0x81, 2, 0x40});
      size_t n = static_cast<size_t>(c.range(1, 11));
      b.insert(b.end(), n, v);
    }
    break;
  default: {
    size_t n = static_cast<size_t>(c.draw(24));
    for (size_t i = 0; i < n; ++i) {
      b.push_back(static_cast<uint8_t>(c.draw(256)));
    }
  }
  }
  if (c.chance(1, 3)) {
    size_t n = static_cast<size_t>(c.draw(12));
    for (size_t i = 0; i < n; ++i) {
      b.push_back(static_cast<uint8_t>(c.draw(256)));
    }
  }
  return b;
}

template <typename T>
void prop_random(pbt::Case& c) {
  Bytes b = gen_bytes(c, VInfo<T>::max_len);
  unsigned kinds = static_cast<unsigned>(c.draw(64));
  c.trace("bytes %s", hex(b).c_str());
  Stats<T> st = check_bytes<T>(c, b.data(), b.size(), kinds);
  RefDecoded r = ref_decode<T>(b.data(), b.size());
  if (b.size() >= 2) {
    c.nontrivial();
  }
  if (!r.terminated) {
    PBT_LABEL("truncated");
  } else if (!r.fits) {
    if (r.len <= VInfo<T>::max_len) {
      PBT_LABEL("out of range within the maximum length");
    } else {
      PBT_LABEL("out of range, too long");
    }
  } else if (r.len > VInfo<T>::max_len) {
    PBT_LABEL("padded beyond the maximum length");
  } else {
    PBT_LABEL("valid");
    if (r.len > 1 && b[r.len - 1] == 0) {
      PBT_LABEL("valid and padded");
    }
  }
  (void)st;
}

// Every byte string of length 0..2, and of length 3 in steps (all of them in
// the thorough tier), for the narrow types; at the end of wider types after
// every possible run of continuation bytes.
template <typename T>
void prop_short(pbt::Case& c) {
  uint64_t i = c.draw(65536);
  uint8_t b[3];
  b[0] = static_cast<uint8_t>(i);
  b[1] = static_cast<uint8_t>(i >> 8);
  check_bytes<T>(c, b, 0, i == 0 ? 3 : 0);
  check_bytes<T>(c, b, 1, i < 256 ? 3 : 0);
  check_bytes<T>(c, b, 2, 1);
  for (unsigned k = 0; k < 256; k += (i % 16 == 0 ? 1 : 17)) {
    b[2] = static_cast<uint8_t>(k);
    check_bytes<T>(c, b, 3, 0);
  }
  c.nontrivial();
}

template <typename T>
void prop_last(pbt::Case& c) {
  uint64_t i = c.draw((VInfo<T>::max_len + 2) * 4 * 16);
  size_t run = static_cast<size_t>(i / 64);
  uint8_t const fill[4] = {0x80, 0xff, 0x81, 0xc0};
  Bytes b(run, fill[i % 4]);
  size_t const n = b.size();
  b.resize(n + 3);
  for (unsigned k = static_cast<unsigned>(i / 4 % 16); k < 256; k += 16) {
    for (uint8_t after : {0x00, 0x01, 0xff}) {
      b[n] = static_cast<uint8_t>(k);
      b[n + 1] = after;
      b[n + 2] = 0x7f;
      for (size_t len = n; len <= n + 3; ++len) {
        check_bytes<T>(c, b.data(), len, k % 8 == 0 ? 3 : 1);
      }
    }
  }
  c.nontrivial();
}

// What decode accepts, encode reproduces (up to padding).
template <typename T>
void prop_reencode(pbt::Case& c) {
  Bytes b = gen_bytes(c, VInfo<T>::max_len);
  T v{};
  uint8_t const* r = varint::decode(v, const_cast<uint8_t const*>(b.data()),
                                    const_cast<uint8_t const*>(b.data()) +
                                        b.size());
  if (r == b.data()) {
    c.discard();
    return;
  }
  size_t len = static_cast<size_t>(r - b.data());
  Bytes e(len);
  uint8_t* w = varint::encode(v, e.data(), e.data() + e.size());
  PBT_CHECK(c, w != e.data(), "%lld decoded from %zu bytes needs more", show(v),
            len);
  size_t m = static_cast<size_t>(w - e.data());
  for (size_t i = 0; i < len; ++i) {
    unsigned want = i < m ? e[i] & 0x7fu : 0u;
    PBT_CHECK(c, (b[i] & 0x7fu) == want, "re-encoding differs in byte %zu", i);
  }
  c.nontrivial();
}

#define X(n, t)                                                                \
  void random_##n(pbt::Case& c) { prop_random<t>(c); }                         \
  PBT_REGISTER(random_##n, &random_##n, 80000, 8000000);                       \
  void reencode_##n(pbt::Case& c) { prop_reencode<t>(c); }                     \
  PBT_REGISTER(reencode_##n, &reencode_##n, 15000, 1000000);                   \
  void last_##n(pbt::Case& c) { prop_last<t>(c); }                             \
  PBT_REGISTER_ENUM(last_##n, &last_##n, (VInfo<t>::max_len + 2) * 64,         \
                    (VInfo<t>::max_len + 2) * 64);
VARINT_TYPES(X)
#undef X

#define X(n, t)                                                                \
  void short_##n(pbt::Case& c) { prop_short<t>(c); }                           \
  PBT_REGISTER_ENUM(short_##n, &short_##n, 65536, 65536);
X(u8, uint8_t)
X(i8, int8_t)
X(u16, uint16_t)
X(i16, int16_t)
X(u32, uint32_t)
X(i64, int64_t)
#undef X

} // namespace
