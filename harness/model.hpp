// Shared pieces of the checks: text generators, a catalogue model with a PO
// serialiser, dictionary snapshots, in-memory file system, log capture.
#pragma once

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.hpp"
#include "tinygettext/dictionary.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/language.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/po_parser.hpp"

namespace model {

using pbt::Case;
using pbt::Tape;
using pbt::quote;
namespace tg = tinygettext;

// --- log capture ---------------------------------------------------------------------
struct LogCapture {
  static unsigned long info, warning, error;
  static unsigned long empty; // messages without text
  static std::vector<std::string> texts; // warnings and errors, the first ones
  static std::vector<char> kinds;        // 'w' or 'e' for each of them
  static std::vector<std::string> infos; // the first hundred
  static size_t limit; // of texts, one thousand unless changed
  static void keep(const std::string& s, char k) { if (texts.size() < limit) { texts.push_back(s); kinds.push_back(k); } }
  static void reset() { info = warning = error = empty = 0; texts.clear(); kinds.clear(); infos.clear(); }
  static void on_info(const std::string& s) { ++info; if (infos.size() < 100) infos.push_back(s); if (s.empty()) ++empty; }
  static void on_warning(const std::string& s) { ++warning; keep(s, 'w'); if (s.empty()) ++empty; }
  static void on_error(const std::string& s) { ++error; keep(s, 'e'); if (s.empty()) ++empty; }
  static void install()
  {
    tg::Log::set_log_info_callback(&LogCapture::on_info);
    tg::Log::set_log_warning_callback(&LogCapture::on_warning);
    tg::Log::set_log_error_callback(&LogCapture::on_error);
  }
};

// --- texts ---------------------------------------------------------------------------
enum class Chars { ascii, latin1 /* as UTF-8 */, utf8, bytes /* 0..255 */ };

std::string utf8(uint32_t cp);
// a size around a power of two or ten, between 8 and max: for the rare big case
size_t magnitude(Tape& t, size_t max);
// arbitrary text, may be empty
std::string gen_text(Tape& t, Chars chars);
std::string gen_nonempty(Tape& t, Chars chars);
// text from a small pool, so that equal keys are common
std::string gen_key(Tape& t);
// identifiers that cannot collide with each other: tag + number
std::string tagged(const char* tag, unsigned n);

// --- plural rules used by catalogues ---------------------------------------------------
struct Rule {
  const char* header;    // text after "Plural-Forms:"
  unsigned n;
  unsigned (*f)(int);
};
const std::vector<Rule>& rules(); // rules[0] is the Germanic rule

// --- catalogue -------------------------------------------------------------------------
struct Message {
  std::optional<std::string> ctxt;
  std::string id;
  bool plural = false;
  std::string id_plural;
  std::vector<std::string> str; // one element unless plural; "" = untranslated form
  bool fuzzy = false;

  bool translated() const
  {
    for (auto& s : str) if (!s.empty()) return true;
    return false;
  }
};

struct Catalogue {
  bool header = true;
  bool header_fuzzy = false;
  std::string charset = "UTF-8";  // "" = no Content-Type line
  int rule = -1;                  // index into rules(), -1 = none
  std::vector<std::string> extra_header; // further header lines without "\n"
  std::vector<Message> messages;
};

using Key = std::pair<std::optional<std::string>, std::string>;
using Dump = std::map<Key, std::vector<std::string>>;

Dump dump(tg::Dictionary& d);
std::string show(const Dump& d);
std::string show(const Message& m);
std::string show(const Catalogue& c);
// first difference, for reports
std::string diff(const Dump& expected, const Dump& actual);

// what loading the catalogue into an empty dictionary must give
Dump expected(const Catalogue& c, bool use_fuzzy = true);
// overlays `upper` on `lower` (the later stored wins)
void overlay(Dump& lower, const Dump& upper);

struct GenOptions {
  Chars id_chars = Chars::bytes;
  Chars str_chars = Chars::bytes;
  size_t max_messages = 12;
  unsigned mean_messages = 4;
  bool fuzzy = false;
  bool contexts = true;
  bool plurals = true;
  bool shared_keys = false; // ids from a small pool
  bool big = true;          // now and then hundreds of messages or a huge header
};
Catalogue gen_catalogue(Tape& t, const GenOptions& o);

// --- serialiser ------------------------------------------------------------------------
// Layout choices are read from the tape; `plain` makes the canonical layout.
struct Layout {
  explicit Layout(Tape* t_) : t(t_) {}
  Tape* t;                 // null: canonical
  bool crlf = false;
  bool bom = false;
  bool final_newline = true;
  bool wild = false;       // non-canonical layout
  static Layout random(Tape& t);
  bool chance(unsigned p) { return wild && t->chance(p); }
  size_t range(size_t lo, size_t hi) { return wild ? t->range(lo, hi) : lo; }
};

// writes bytes as the inside of PO string literals; `text` already in file encoding.
// `safe_split` false keeps the text in one chunk (multi-byte encodings).
void write_string(std::string& out, Layout& l, const std::string& keyword, const std::string& text, bool raw_only = false);
void write_header(std::string& out, Layout& l, const Catalogue& c);
void write_message(std::string& out, Layout& l, const Message& m);
void write_separator(std::string& out, Layout& l);
void write_comments(std::string& out, Layout& l);
std::string header_text(const Catalogue& c);
std::string finish(std::string body, Layout& l); // applies BOM, CRLF, final newline
std::string serialise(const Catalogue& c, Layout& l);
std::string serialise(const Catalogue& c);       // canonical

void load(const std::string& name, const std::string& content, tg::Dictionary& d);

// --- in-memory file system ---------------------------------------------------------------
struct Files {
  // directory -> (file name -> content); order = listing order
  std::map<std::string, std::vector<std::pair<std::string, std::string>>> dirs;
  unsigned long opened = 0, listed = 0;
};

class MemFileSystem : public tg::FileSystem {
public:
  explicit MemFileSystem(std::shared_ptr<Files> f) : files(f) {}
  std::vector<std::string> open_directory(const std::string& pathname) override;
  std::unique_ptr<std::istream> open_file(const std::string& filename) override;
  std::shared_ptr<Files> files;
};

// Checks all four kinds of lookup of `d` against the dump + rule for the given messages.
// `fb` (optional) gives the dictionary's fallback contents.
struct View {
  const Dump* own;
  unsigned (*rule)(int); // null: form 0
  const View* fallback;
};
std::string lookup(const View& v, const Key& k);
std::string lookup_plural(const View& v, const Key& k, const std::string& plural, int n);
// returns description of the first wrong lookup, or ""
std::string compare_lookups(const tg::Dictionary& d, const View& v, const std::set<Key>& keys, const std::vector<int>& counts);

} // namespace model
