// The little a program needs to run as a 32-bit process without any library:
// entry, output, memory, 64-bit division. Only for programs of one translation
// unit. In a 64-bit build the same functions come from the C library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <exception>

#if defined(__i386__)

extern "C" {
static inline int rt_call(int nr, int a, void const* b, int c) {
  int r;
  asm volatile("int $0x80" : "=a"(r) : "a"(nr), "b"(a), "c"(b), "d"(c) : "memory");
  return r;
}
[[noreturn]] void rt_exit(int rc) {
  for (;;) {
    rt_call(1, rc, nullptr, 0);
  }
}
void rt_write(char const* s, std::size_t n) {
  while (n > 0) {
    int const r = rt_call(4, 1, s, static_cast<int>(n));
    if (r <= 0) {
      rt_exit(99);
    }
    s += r;
    n -= static_cast<std::size_t>(r);
  }
}
int main();
void rt_flush();
__attribute__((used)) void rt_start() {
  int const rc = main();
  rt_flush();
  rt_exit(rc);
}
asm(".globl _start\n_start: xor %ebp, %ebp\n and $-16, %esp\n call rt_start\n");

__attribute__((used, optimize("no-tree-loop-distribute-patterns"))) void* memcpy(void* d, void const* s, std::size_t n) {
  char* p = static_cast<char*>(d);
  char const* q = static_cast<char const*>(s);
  while (n-- > 0) {
    *p++ = *q++;
  }
  return d;
}
__attribute__((used, optimize("no-tree-loop-distribute-patterns"))) void* memmove(void* d, void const* s, std::size_t n) {
  char* p = static_cast<char*>(d);
  char const* q = static_cast<char const*>(s);
  if (p < q) {
    while (n-- > 0) {
      *p++ = *q++;
    }
  } else {
    while (n-- > 0) {
      p[n] = q[n];
    }
  }
  return d;
}
__attribute__((used, optimize("no-tree-loop-distribute-patterns"))) void* memset(void* d, int c, std::size_t n) {
  char* p = static_cast<char*>(d);
  while (n-- > 0) {
    *p++ = static_cast<char>(c);
  }
  return d;
}
__attribute__((used, optimize("no-tree-loop-distribute-patterns"))) std::size_t strlen(char const* s) {
  std::size_t n = 0;
  while (s[n]) {
    ++n;
  }
  return n;
}
[[noreturn]] void abort() { rt_exit(134); }
[[noreturn]] void __assert_fail(char const* e, char const*, unsigned, char const*) noexcept {
  rt_flush();
  rt_write(e, strlen(e));
  rt_write(" asserted\n", 10);
  rt_exit(134);
}
[[noreturn]] void __cxa_pure_virtual() { rt_exit(135); }

static std::uint64_t rt_div(std::uint64_t a, std::uint64_t b, std::uint64_t* rem) {
  std::uint64_t q = 0, r = 0;
  for (int i = 63; i >= 0; --i) {
    r = (r << 1) | ((a >> i) & 1);
    if (r >= b) {
      r -= b;
      q |= std::uint64_t{1} << i;
    }
  }
  *rem = r;
  return q;
}
__attribute__((used)) std::uint64_t __udivdi3(std::uint64_t a, std::uint64_t b) {
  std::uint64_t r;
  return rt_div(a, b, &r);
}
__attribute__((used)) std::uint64_t __umoddi3(std::uint64_t a, std::uint64_t b) {
  std::uint64_t r;
  rt_div(a, b, &r);
  return r;
}
__attribute__((used)) std::uint64_t __udivmoddi4(std::uint64_t a, std::uint64_t b, std::uint64_t* r) { return rt_div(a, b, r); }
static std::uint64_t rt_abs(std::int64_t x) { return x < 0 ? 0 - static_cast<std::uint64_t>(x) : static_cast<std::uint64_t>(x); }
__attribute__((used)) std::int64_t __divdi3(std::int64_t a, std::int64_t b) {
  std::uint64_t r, q = rt_div(rt_abs(a), rt_abs(b), &r);
  return static_cast<std::int64_t>((a < 0) != (b < 0) ? 0 - q : q);
}
__attribute__((used)) std::int64_t __moddi3(std::int64_t a, std::int64_t b) {
  std::uint64_t r;
  rt_div(rt_abs(a), rt_abs(b), &r);
  return static_cast<std::int64_t>(a < 0 ? 0 - r : r);
}
__attribute__((used)) std::int64_t __divmoddi4(std::int64_t a, std::int64_t b, std::int64_t* r) {
  *r = __moddi3(a, b);
  return __divdi3(a, b);
}
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
void* __dso_handle = nullptr;
}

namespace std {
[[noreturn]] void terminate() noexcept {
  rt_flush();
  rt_write("terminated\n", 11);
  rt_exit(0);
}
[[noreturn]] void __throw_length_error(char const*) { rt_exit(136); }
[[noreturn]] void __throw_bad_alloc() { rt_exit(136); }
[[noreturn]] void __throw_bad_array_new_length() { rt_exit(136); }
} // namespace std

static unsigned char rt_heap[1 << 20];
static std::size_t rt_top = 0;
void* operator new(std::size_t n) {
  std::size_t const at = (rt_top + 15) / 16 * 16;
  if (n > sizeof(rt_heap) - at) {
    rt_exit(137);
  }
  rt_top = at + n;
  return rt_heap + at;
}
void operator delete(void*) noexcept {}
void operator delete(void*, std::size_t) noexcept {}
#if defined(__cpp_aligned_new)
void operator delete(void*, std::align_val_t) noexcept {}
void operator delete(void*, std::size_t, std::align_val_t) noexcept {}
#endif

#else
#include <cstdio>
#include <cstdlib>
static void rt_write(char const* s, std::size_t n) { std::fwrite(s, 1, n, stdout); }
void rt_flush();
static void rt_ended() {
  rt_flush();
  std::printf("terminated\n");
  std::fflush(stdout);
  std::_Exit(0);
}
static struct RtInit {
  RtInit() { std::set_terminate(rt_ended); }
  ~RtInit() { rt_flush(); }
} rt_init;
#endif

static char rt_buf[4096];
static std::size_t rt_used = 0;
#if defined(__i386__)
extern "C"
#endif
void rt_flush() {
  rt_write(rt_buf, rt_used);
  rt_used = 0;
}
static void rt_put(char c) {
  if (rt_used == sizeof(rt_buf)) {
    rt_flush();
  }
  rt_buf[rt_used++] = c;
}
static void rt_text(char const* s) {
  while (*s) {
    rt_put(*s++);
  }
}
static void rt_hex(std::uint64_t x) {
  for (int i = 60; i >= 0; i -= 4) {
    rt_put("0123456789abcdef"[(x >> i) & 15]);
  }
}
static void rt_int(long long x) {
  if (x < 0) {
    rt_put('-');
  }
  std::uint64_t u = x < 0 ? 0 - static_cast<std::uint64_t>(x) : static_cast<std::uint64_t>(x);
  char d[24];
  int n = 0;
  do {
    d[n++] = static_cast<char>('0' + u % 10);
    u /= 10;
  } while (u);
  while (n > 0) {
    rt_put(d[--n]);
  }
}
