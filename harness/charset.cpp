#include "charset.hpp"

#include <errno.h>
#include <iconv.h>
#include <vector>

namespace model {

bool iconv_available(const std::string& to, const std::string& from)
{
  iconv_t cd = ::iconv_open(to.c_str(), from.c_str());
  if (cd == reinterpret_cast<iconv_t>(-1)) return false;
  ::iconv_close(cd);
  return true;
}

Conv iconv_once(const std::string& to, const std::string& from, const std::string& text, std::string& out, std::string* unflushed)
{
  out.clear();
  iconv_t cd = ::iconv_open(to.c_str(), from.c_str());
  if (cd == reinterpret_cast<iconv_t>(-1)) return Conv::unavailable;
  // large enough for anything: 12 bytes per input byte and some escapes
  std::vector<char> buf(12 * text.size() + 256);
  std::string in = text;
  char* ip = &in[0];
  size_t il = in.size();
  char* op = buf.data();
  size_t ol = buf.size();
  Conv r = Conv::ok;
  if (::iconv(cd, &ip, &il, &op, &ol) == static_cast<size_t>(-1)) {
    if (errno == E2BIG) __builtin_trap();
    r = Conv::bad_input;
  }
  if (unflushed) unflushed->assign(buf.data(), static_cast<size_t>(op - buf.data()));
  ::iconv(cd, nullptr, nullptr, &op, &ol);
  out.assign(buf.data(), static_cast<size_t>(op - buf.data()));
  ::iconv_close(cd);
  return r;
}

std::string upper(const std::string& s)
{
  std::string r = s;
  for (char& c : r) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
  return r;
}

std::string mixed_case(const std::string& s, unsigned long bits)
{
  std::string r = s;
  for (size_t i = 0; i < r.size(); ++i)
    if ((bits >> (i % 16)) & 1) {
      if (r[i] >= 'A' && r[i] <= 'Z') r[i] = static_cast<char>(r[i] + 32);
      else if (r[i] >= 'a' && r[i] <= 'z') r[i] = static_cast<char>(r[i] - 32);
    }
  return r;
}

} // namespace model
