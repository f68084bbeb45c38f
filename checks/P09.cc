// P09: compressed data comes back exactly, or the damage is reported.
#include <albatross/Common>
#include <albatross/Core>

#include "sim.h"

#include <cstring>
#include <dlfcn.h>
#include <memory>
#include <thread>

extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P09";
const char *const kRule =
    "one evaluation = one payload read back, whole or after one fault of the storage; "
    "non-trivial = the payload stood for at least one byte; distinct by fault, sizes, level "
    "and contents";
const char *const kRealCode =
    "albatross::zstd::compress, decompress and maybe_decompress for strings and elements; "
    "libzstd 1.5.5";
const char *const kStubs =
    "pthread scheduling and the heap (simulated); storage is the harness' (truncation, torn "
    "and misdirected blocks, flipped bits, appended and doubled data); libzstd's entry "
    "points mark the buffers and contexts they use for the race detector";
const std::vector<std::string> kAssumptions = {
    "libzstd itself is not instrumented: it is not interrupted but where it allocates",
    "frames carry no checksum, so altered bytes may go unnoticed: only sizes and memory "
    "are judged then",
    "headers that announce more than 1 MiB are not followed"};

// --- the seam to libzstd: what it reads and writes ---------------------------
namespace seam {
int g_fail_compress = -1, g_fail_decompress = -1;
bool g_failed = false;

template <typename F> F real(const char *name) {
  sim::Quiet quiet;
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
inline void reads(const void *p, std::size_t n) {
  if (n == 0 || p == nullptr) {
    return;
  }
  const volatile char *c = static_cast<const volatile char *>(p);
  (void)c[0];
  (void)c[n / 2];
  (void)c[n - 1];
}
inline void writes(void *p, std::size_t n) {
  if (n == 0 || p == nullptr) {
    return;
  }
  volatile char *c = static_cast<volatile char *>(p);
  c[0] = c[0];
  c[n / 2] = c[n / 2];
  c[n - 1] = c[n - 1];
}
inline bool fails(int *countdown) {
  sim::Quiet quiet;
  if (*countdown < 0) {
    return false;
  }
  if ((*countdown)-- == 0) {
    g_failed = true;
    sim::fault_fired("library_error");
    return true;
  }
  return false;
}
constexpr std::size_t kError = static_cast<std::size_t>(-64); // memory_allocation
} // namespace seam

extern "C" {
std::size_t ZSTD_compress(void *dst, std::size_t cap, const void *src, std::size_t n, int level) {
  if (seam::fails(&seam::g_fail_compress)) {
    return seam::kError;
  }
  seam::reads(src, n);
  const std::size_t r = seam::real<decltype(&ZSTD_compress)>("ZSTD_compress")(dst, cap, src, n, level);
  seam::writes(dst, ZSTD_isError(r) ? 1 : r);
  return r;
}
std::size_t ZSTD_decompress(void *dst, std::size_t cap, const void *src, std::size_t n) {
  if (seam::fails(&seam::g_fail_decompress)) {
    return seam::kError;
  }
  seam::reads(src, n);
  const std::size_t r = seam::real<decltype(&ZSTD_decompress)>("ZSTD_decompress")(dst, cap, src, n);
  seam::writes(dst, ZSTD_isError(r) ? std::min<std::size_t>(1, cap) : r);
  return r;
}
std::size_t ZSTD_compressCCtx(ZSTD_CCtx *ctx, void *dst, std::size_t cap, const void *src,
                              std::size_t n, int level) {
  if (seam::fails(&seam::g_fail_compress)) {
    return seam::kError;
  }
  seam::reads(src, n);
  seam::writes(ctx, 1);
  const std::size_t r = seam::real<decltype(&ZSTD_compressCCtx)>("ZSTD_compressCCtx")(ctx, dst, cap, src, n, level);
  seam::writes(ctx, 1);
  seam::writes(dst, ZSTD_isError(r) ? 1 : r);
  return r;
}
std::size_t ZSTD_compress2(ZSTD_CCtx *ctx, void *dst, std::size_t cap, const void *src,
                           std::size_t n) {
  if (seam::fails(&seam::g_fail_compress)) {
    return seam::kError;
  }
  seam::reads(src, n);
  seam::writes(ctx, 1);
  const std::size_t r = seam::real<decltype(&ZSTD_compress2)>("ZSTD_compress2")(ctx, dst, cap, src, n);
  seam::writes(ctx, 1);
  seam::writes(dst, ZSTD_isError(r) ? 1 : r);
  return r;
}
std::size_t ZSTD_decompressDCtx(ZSTD_DCtx *ctx, void *dst, std::size_t cap, const void *src,
                                std::size_t n) {
  if (seam::fails(&seam::g_fail_decompress)) {
    return seam::kError;
  }
  seam::reads(src, n);
  seam::writes(ctx, 1);
  const std::size_t r = seam::real<decltype(&ZSTD_decompressDCtx)>("ZSTD_decompressDCtx")(ctx, dst, cap, src, n);
  seam::writes(ctx, 1);
  seam::writes(dst, ZSTD_isError(r) ? std::min<std::size_t>(1, cap) : r);
  return r;
}
std::size_t ZSTD_compressStream2(ZSTD_CCtx *ctx, ZSTD_outBuffer *out, ZSTD_inBuffer *in,
                                 ZSTD_EndDirective end) {
  if (seam::fails(&seam::g_fail_compress)) {
    return seam::kError;
  }
  seam::reads(in->src, in->size);
  seam::writes(ctx, 1);
  const std::size_t r = seam::real<decltype(&ZSTD_compressStream2)>("ZSTD_compressStream2")(ctx, out, in, end);
  seam::writes(ctx, 1);
  seam::writes(out->dst, out->pos);
  return r;
}
std::size_t ZSTD_decompressStream(ZSTD_DStream *ctx, ZSTD_outBuffer *out, ZSTD_inBuffer *in) {
  if (seam::fails(&seam::g_fail_decompress)) {
    return seam::kError;
  }
  seam::reads(in->src, in->size);
  seam::writes(ctx, 1);
  const std::size_t r = seam::real<decltype(&ZSTD_decompressStream)>("ZSTD_decompressStream")(ctx, out, in);
  seam::writes(ctx, 1);
  seam::writes(out->dst, out->pos);
  return r;
}
}

namespace p09 {
using namespace albatross;

struct Triple {
  double value;
  std::int32_t key;
  float weight;
};

// What is stored, how, and what happens to it.
enum Type { kString, kChar, kInt16, kDouble, kTriple, kTypes };
const std::size_t kWidth[kTypes] = {1, 1, 2, 8, sizeof(Triple)};
const char *const kTypeName[kTypes] = {"string", "char", "int16", "double", "struct"};
enum Damage {
  kNone, kTruncate, kAppend, kDouble_, kFlip, kZeroTail, kZeroBlock, kStaleBlock, kOther,
  kDropBlock, kDamages
};
const char *const kDamageName[kDamages] = {
    "none",       "truncated",  "appended",    "doubled",     "bit_flip",
    "zero_tail",  "zero_block", "stale_block", "misdirected", "dropped_block"};

struct Case {
  Type type = kString;
  std::string data;  // the bytes
  int level = 3;
  std::size_t lead = 0; // misalignment of the source (bytes; only for char)
};

struct Outcome {
  bool ok = false, failed = false;
  std::string bytes;
};

std::string contents(std::size_t width) {
  const std::size_t kinds[] = {0, 1, 2, 3, 4};
  const auto kind = kinds[sim::w(5)];
  std::size_t n = sim::w(3) ? sim::w(1 + sim::w(400)) : sim::w(1 + sim::w(40));
  if (sim::w(24) == 23) {
    n = sim::w(1 + sim::w(20000));
  }
  std::string out(n * width, '\0');
  if (n == 0) {
    return out;
  }
  std::uint64_t x = 1 + sim::w(1u << 20);
  for (std::size_t i = 0; i < out.size(); ++i) {
    switch (kind) {
    case 0:
      break; // zeros
    case 1:
      out[i] = static_cast<char>('a' + i % (1 + x % 19)); // a pattern
      break;
    case 2: // noise
      x = sim::mix(x, i);
      out[i] = static_cast<char>(x);
      break;
    case 3: // text like
      x = sim::mix(x, i);
      out[i] = static_cast<char>("etaoin shrdlu0123"[x % 17]);
      break;
    default: // long runs
      if (i % 37 == 0) {
        x = sim::mix(x, i);
      }
      out[i] = static_cast<char>(x);
    }
  }
  if (kind == 1 && width == 8) { // numbers that change slowly
    for (std::size_t i = 0; i < n; ++i) {
      const double v = std::sin(0.1 * static_cast<double>(i)) + static_cast<double>(x);
      std::memcpy(&out[i * 8], &v, 8);
    }
  }
  return out;
}

Case some_case() {
  Case c;
  c.type = static_cast<Type>(sim::w(kTypes));
  c.data = contents(kWidth[c.type]);
  const int levels[] = {3, 1, 2, 5, 9, 0, -3, 15, 19};
  c.level = levels[sim::w(c.data.size() > 8192 ? 5 : 9)];
  c.lead = c.type <= kChar ? sim::w(3) : 0;
  return c;
}

template <typename T> std::string compress_as(const Case &c) {
  // Only constant memory of exactly the right size is handed over.
  const std::size_t n = c.data.size() / sizeof(T);
  std::unique_ptr<T[]> src;
  {
    sim::NoFault no_fault;
    src.reset(new T[n + c.lead]);
    std::memcpy(static_cast<void *>(src.get() + c.lead), c.data.data(), c.data.size());
  }
  const T *from = n == 0 && c.level == 1 ? nullptr : src.get() + c.lead;
  return c.level == 3 ? zstd::compress(from, n) : zstd::compress(from, n, c.level);
}

std::string store(const Case &c) {
  switch (c.type) {
  case kString:
    return c.level == 3 ? zstd::compress(c.data) : zstd::compress(c.data, c.level);
  case kChar:
    return compress_as<char>(c);
  case kInt16:
    return compress_as<std::int16_t>(c);
  case kDouble:
    return compress_as<double>(c);
  default:
    return compress_as<Triple>(c);
  }
}

constexpr std::size_t kGuard = 24;
constexpr unsigned char kMark = 0x5A;

// Reads `n` elements into memory between guards.
template <typename T>
Outcome read_as(const std::string &payload, std::size_t n, bool assert_form) {
  Outcome out;
  std::unique_ptr<unsigned char[]> raw;
  const std::size_t size = n * sizeof(T) + 2 * kGuard;
  {
    sim::NoFault no_fault;
    raw.reset(new unsigned char[size]);
  }
  std::memset(raw.get(), kMark, size);
  T *to = reinterpret_cast<T *>(raw.get() + kGuard);
  try {
    if (assert_form) {
      try {
        sim::AssertThrows throws;
        zstd::decompress(payload, to, n);
        out.ok = true;
      } catch (const sim::AssertionFailed &) {
      }
    } else {
      out.ok = zstd::maybe_decompress(payload, to, n);
    }
  } catch (const std::exception &) {
    out.failed = true;
  }
  for (std::size_t i = 0; i < kGuard; ++i) {
    if (raw[i] != kMark || raw[size - 1 - i] != kMark) {
      sim::violation("bounds", "reading %zu elements of %zu bytes writes outside of them", n,
                     sizeof(T));
    }
  }
  sim::NoFault no_fault;
  out.bytes.assign(reinterpret_cast<char *>(to), n * sizeof(T));
  return out;
}

Outcome read_string(const std::string &payload, int form) {
  Outcome out;
  try {
    if (form == 1) {
      try {
        sim::AssertThrows throws;
        std::string s = zstd::decompress(payload);
        out.bytes.swap(s);
        out.ok = true;
      } catch (const sim::AssertionFailed &) {
      }
    } else {
      std::string s;
      {
        sim::NoFault no_fault;
        s = form == 2 ? std::string(300, 'x') : std::string("old");
      }
      out.ok = zstd::maybe_decompress(payload, &s);
      out.bytes.swap(s);
    }
  } catch (const std::exception &) {
    out.failed = true;
  }
  return out;
}

Outcome read(Type type, const std::string &payload, std::size_t n, int form) {
  switch (type) {
  case kString:
    return read_string(payload, form);
  case kChar:
    return read_as<char>(payload, n, form == 1);
  case kInt16:
    return read_as<std::int16_t>(payload, n, form == 1);
  case kDouble:
    return read_as<double>(payload, n, form == 1);
  default:
    return read_as<Triple>(payload, n, form == 1);
  }
}

unsigned long long announced(const std::string &payload) {
  sim::Quiet quiet;
  return ZSTD_getFrameContentSize(payload.data(), payload.size());
}

std::string damage(Damage kind, const std::string &good, const std::string &other) {
  std::string p = good;
  const std::size_t n = p.size();
  switch (kind) {
  case kTruncate:
    p.resize(sim::f(n));
    break;
  case kAppend: {
    const std::size_t k = 1 + sim::f(20);
    const char c = static_cast<char>(sim::f(200));
    p.append(k, c);
    break;
  }
  case kDouble_:
    p += good;
    break;
  case kFlip:
    for (std::size_t i = 0, k = 1 + sim::f(3); i < k; ++i) {
      p[sim::f(n)] ^= static_cast<char>(1u << sim::f(8));
    }
    break;
  case kZeroTail: {
    const std::size_t from = sim::f(n);
    std::fill(p.begin() + static_cast<long>(from), p.end(), '\0');
    break;
  }
  case kZeroBlock:
  case kStaleBlock: {
    const std::size_t from = sim::f(n), len = 1 + sim::f(16);
    for (std::size_t i = from; i < n && i < from + len; ++i) {
      p[i] = kind == kZeroBlock || i >= other.size() ? '\0' : other[i];
    }
    break;
  }
  case kOther:
    p = other;
    break;
  case kDropBlock: {
    const std::size_t from = sim::f(n), len = 1 + sim::f(8);
    p.erase(from, len);
    break;
  }
  default:
    break;
  }
  return p;
}

void expect_whole(const Case &c, const std::string &payload, int form, const char *when) {
  const std::size_t n = c.data.size() / kWidth[c.type];
  const Outcome o = read(c.type, payload, n, form);
  if (!o.ok || o.failed || o.bytes != c.data) {
    sim::violation("roundtrip", "%zu bytes of %s at level %d do not come back %s%s",
                   c.data.size(), kTypeName[c.type], c.level, when,
                   o.failed ? " (exception)" : o.ok ? "" : " (refused)");
  }
}

void judge(const Case &c, const std::string &payload, Damage kind, const std::string &bad,
           int form) {
  const std::size_t n = c.data.size() / kWidth[c.type];
  if (kind == kOther || kind == kStaleBlock) {
    if (bad == payload) {
      kind = kNone;
    }
  }
  const auto size = announced(bad);
  const bool has_size = size != ZSTD_CONTENTSIZE_ERROR && size != ZSTD_CONTENTSIZE_UNKNOWN;
  if (has_size && size > (1u << 20)) {
    sim::probe("huge_announced_size");
    if (c.type == kString) {
      return;
    }
  }
  sim::fault_fired(kDamageName[kind]);
  const std::int64_t before = sim::live_blocks();
  std::int64_t held = 0;
  {
    const Outcome o = read(c.type, bad, n, form);
    const Outcome again = read(c.type, bad, n, 1 - form % 2);
    if (o.failed) {
      sim::violation("damage", "a %s payload of %zu bytes ends in an exception",
                     kDamageName[kind], bad.size());
    }
    if (o.ok != again.ok || (o.ok && o.bytes != again.bytes)) {
      sim::violation("forms", "a %s payload is %s by one way to read it and %s by the other",
                     kDamageName[kind], o.ok ? "accepted" : "refused",
                     again.ok ? "accepted" : "refused");
    }
    const std::size_t w = kWidth[c.type];
    if (o.ok) {
      if (!has_size || size != o.bytes.size()) {
        sim::violation("size", "a %s payload is read as %zu bytes but announces %llu",
                       kDamageName[kind], o.bytes.size(), size);
      }
      switch (kind) {
      case kTruncate:
        sim::violation("truncated", "%zu of %zu bytes are taken for all of %zu bytes of %s",
                       bad.size(), payload.size(), c.data.size(), kTypeName[c.type]);
      case kAppend:
        sim::violation("appended", "%zu bytes after the end of a payload go unnoticed",
                       bad.size() - payload.size());
      case kDouble_:
        if (!c.data.empty()) {
          sim::violation("doubled", "a payload that is there twice goes unnoticed");
        }
        break;
      case kNone:
        if (o.bytes != c.data) {
          sim::violation("roundtrip", "the payload is read as something else");
        }
        break;
      default:
        break;
      }
    } else if (kind == kNone) {
      sim::violation("roundtrip", "%zu bytes of %s are refused", c.data.size(),
                     kTypeName[c.type]);
    }
    (void)w;
    sim::evaluated(!c.data.empty(),
                   sim::hash_bytes(bad.data(), bad.size(),
                                   sim::mix(kind * 8 + c.type, c.data.size() * 64 + form)));
    (void)held;
  }
  (void)before;
}

void wrong_size(const Case &c, const std::string &payload, int form) {
  if (c.type == kString) {
    return;
  }
  const std::size_t n = c.data.size() / kWidth[c.type];
  std::size_t m = sim::f(2) ? n + 1 + sim::f(9) : n > 0 ? sim::f(n) : n + 1;
  if (sim::f(4) == 3) {
    m = n * (2 + sim::f(7)); // elements taken for bytes
  }
  if (m == n || m > 100000) {
    return;
  }
  const Outcome o = read(c.type, payload, m, form);
  sim::fault_fired("wrong_size");
  if (o.ok) {
    sim::violation("wrong size", "%zu elements are read from a payload of %zu", m, n);
  }
  if (o.failed) {
    sim::violation("wrong size", "reading %zu elements of a payload of %zu throws", m, n);
  }
  sim::evaluated(true, sim::mix(m * 131 + n, static_cast<std::uint64_t>(c.type)));
}

// One client: stores things and reads them back while others do the same.
struct Client {
  std::vector<Case> cases;
  std::vector<std::string> payloads;
};

void under_memory_faults(const Case &c, const std::string &payload) {
  // compression
  for (int library = 0; library < 2; ++library) {
    bool threw = false;
    std::string p;
    const std::int64_t before = sim::live_blocks();
    bool fired;
    if (library) {
      seam::g_fail_compress = 0;
      seam::g_failed = false;
    } else {
      sim::arm_alloc_fault(sim::f(8));
    }
    try {
      std::string s = store(c);
      p.swap(s);
    } catch (const std::exception &) {
      threw = true;
    }
    fired = library ? seam::g_failed : sim::alloc_fault_fired();
    sim::disarm_alloc_fault();
    seam::g_fail_compress = -1;
    if (threw) {
      if (!fired) {
        sim::violation("exception", "compression fails without cause");
      }
      if (sim::live_blocks() != before) {
        sim::violation("leak", "%lld blocks of memory are lost when compression fails",
                       static_cast<long long>(sim::live_blocks() - before));
      }
    } else {
      expect_whole(c, p, 0, "when memory runs out");
    }
    if (fired) {
      sim::fault_fired(library ? "library" : "alloc");
      sim::evaluated(true, sim::mix(c.data.size(), threw ? 1 : 2));
    }
  }
  // decompression
  for (int library = 0; library < 2; ++library) {
    const std::int64_t before = sim::live_blocks();
    bool fired = false;
    {
      if (library) {
        seam::g_fail_decompress = 0;
        seam::g_failed = false;
      } else {
        sim::arm_alloc_fault(sim::f(4));
      }
      const int form = static_cast<int>(sim::f(2)) * 2;
      const Outcome o = read(c.type, payload, c.data.size() / kWidth[c.type], form);
      fired = library ? seam::g_failed : sim::alloc_fault_fired();
      sim::disarm_alloc_fault();
      seam::g_fail_decompress = -1;
      if (o.ok && o.bytes != c.data) {
        sim::violation("exception", "decompression hides a failure: %zu bytes of %s are wrong",
                       c.data.size(), kTypeName[c.type]);
      }
      if ((!o.ok || o.failed) && !fired) {
        sim::violation("exception", "decompression fails without cause");
      }
      if (fired && library && o.ok && !o.failed) {
        sim::violation("exception", "decompression hides an error of the library");
      }
    }
    if (sim::live_blocks() != before) {
      sim::violation("leak", "%lld blocks of memory are lost by decompression",
                     static_cast<long long>(sim::live_blocks() - before));
    }
    if (fired) {
      sim::fault_fired(library ? "library" : "alloc");
      sim::evaluated(true, sim::mix(c.data.size(), 3));
    }
  }
}
} // namespace p09

void sim_run() {
  using namespace p09;
  const std::size_t n_clients = 1 + sim::w(4);
  std::vector<Client> clients(n_clients);
  // some payloads are shared by all
  std::vector<Case> common(1 + sim::w(2));
  for (auto &c : common) {
    c = some_case();
  }
  for (auto &cl : clients) {
    cl.cases.resize(1 + sim::w(4));
    for (auto &c : cl.cases) {
      if (sim::w(4) == 3) {
        c = common[sim::w(common.size())];
      } else {
        c = some_case();
      }
    }
    cl.payloads.resize(cl.cases.size());
  }
  const bool memory = n_clients == 1 && sim::f(2);
  std::vector<std::string> shared(common.size());
  for (std::size_t i = 0; i < common.size(); ++i) {
    shared[i] = store(common[i]);
  }
  sim::begin(sim::random_sched());
  {
    const auto work = [&](std::size_t id) {
      Client &me = clients[id];
      for (std::size_t i = 0; i < me.cases.size(); ++i) {
        me.payloads[i] = store(me.cases[i]);
        for (std::size_t j = 0; j < common.size(); ++j) {
          if ((i + j + id) % 2 == 0) { // the same constant payload in all threads
            expect_whole(common[j], shared[j], static_cast<int>((i + id) % 3),
                         "with others reading it");
          }
        }
        expect_whole(me.cases[i], me.payloads[i], static_cast<int>(i % 3), "in its thread");
      }
      for (std::size_t i = 0; i < me.cases.size(); ++i) { // nobody has changed it
        expect_whole(me.cases[i], me.payloads[i], static_cast<int>((i + 1) % 3), "later");
      }
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back([&, i] { work(i); });
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
    if (memory) {
      for (std::size_t i = 0; i < clients[0].cases.size(); ++i) {
        under_memory_faults(clients[0].cases[i], clients[0].payloads[i]);
      }
    }
  }
  sim::end();
  for (std::size_t id = 0; id < n_clients; ++id) {
    for (std::size_t i = 0; i < clients[id].cases.size(); ++i) {
      const Case &c = clients[id].cases[i];
      const std::string &p = clients[id].payloads[i];
      sim::log_bytes(p.data(), p.size());
      judge(c, p, kNone, p, static_cast<int>(sim::f(3)));
      if (store(c) != p) {
        sim::violation("repeat", "%zu bytes of %s are compressed to something else when "
                                 "nobody else is there", c.data.size(), kTypeName[c.type]);
      }
      const Client &o = clients[(id + 1) % n_clients];
      const std::string &other = o.payloads[(i + 1) % o.payloads.size()];
      for (std::size_t k = 0, rounds = 2 + sim::f(6); k < rounds; ++k) {
        const auto kind = static_cast<Damage>(1 + sim::f(kDamages - 1));
        judge(c, p, kind, damage(kind, p, other), static_cast<int>(sim::f(3)));
      }
      if (p.size() < 300 && sim::f(4) == 3) { // every crash point of one write
        for (std::size_t len = 0; len < p.size(); ++len) {
          judge(c, p, kTruncate, p.substr(0, len), static_cast<int>(len % 3));
        }
      }
      wrong_size(c, p, static_cast<int>(sim::f(2)));
    }
  }
}
