// One-shot conversions with the platform's iconv, used as an oracle.
#pragma once

#include <string>

namespace model {

enum class Conv { ok, bad_input, unavailable };

// Converts `text` alone with a fresh descriptor. On bad input `out` is the conversion of
// the part before it; `unflushed` is the same without the final shift sequence.
Conv iconv_once(const std::string& to, const std::string& from, const std::string& text, std::string& out, std::string* unflushed = nullptr);
bool iconv_available(const std::string& to, const std::string& from);
std::string upper(const std::string& s);
std::string mixed_case(const std::string& s, unsigned long bits);

} // namespace model
