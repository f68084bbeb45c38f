// Stand-in for gzip-hpp (not installable offline): same API, same zlib calls.
#ifndef SIM_GZIP_COMPRESS_HPP
#define SIM_GZIP_COMPRESS_HPP
#include <zlib.h>

#include <stdexcept>
#include <string>

namespace gzip {
inline std::string compress(const char *data, std::size_t size,
                            int level = Z_DEFAULT_COMPRESSION) {
  z_stream s{};
  if (deflateInit2(&s, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) !=
      Z_OK) {
    throw std::runtime_error("deflate init failed");
  }
  s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<unsigned int>(size);
  std::string out;
  do {
    const std::size_t have = out.size();
    out.resize(have + size / 2 + 1024);
    s.next_out = reinterpret_cast<Bytef *>(&out[have]);
    s.avail_out = static_cast<unsigned int>(out.size() - have);
    deflate(&s, Z_FINISH);
    out.resize(out.size() - s.avail_out);
  } while (s.avail_out == 0);
  deflateEnd(&s);
  return out;
}
} // namespace gzip
#endif
