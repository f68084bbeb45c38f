// Stand-in for gzip-hpp (not installable offline): same API, same zlib calls.
// As in gzip-hpp, Z_BUF_ERROR (an input that ends early) is not an error:
// what could be inflated is returned.
#ifndef SIM_GZIP_DECOMPRESS_HPP
#define SIM_GZIP_DECOMPRESS_HPP
#include <zlib.h>

#include <stdexcept>
#include <string>

namespace gzip {
inline std::string decompress(const char *data, std::size_t size) {
  z_stream s{};
  if (inflateInit2(&s, 15 + 32) != Z_OK) {
    throw std::runtime_error("inflate init failed");
  }
  s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<unsigned int>(size);
  std::string out;
  do {
    const std::size_t have = out.size();
    out.resize(have + 2 * size + 64);
    s.next_out = reinterpret_cast<Bytef *>(&out[have]);
    s.avail_out = static_cast<unsigned int>(out.size() - have);
    const int ret = inflate(&s, Z_FINISH);
    if (ret != Z_STREAM_END && ret != Z_OK && ret != Z_BUF_ERROR) {
      const std::string msg = s.msg ? s.msg : "inflate failed";
      inflateEnd(&s);
      throw std::runtime_error(msg);
    }
    out.resize(out.size() - s.avail_out);
  } while (s.avail_out == 0);
  inflateEnd(&s);
  return out;
}
} // namespace gzip
#endif
