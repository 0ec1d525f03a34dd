// Reference model of DictionaryManager, shared by the manager checks (C11-C15, C17, C18).
#pragma once

#include <deque>

#include "model.hpp"

namespace model {

enum class Fault { none, open_null, open_failed, open_throw, read, bad_charset };

// One file of a directory; a .po file has a catalogue
struct FileModel {
  std::string name;
  bool po = false;
  Catalogue cat;
  std::string raw;            // content as stored
  std::vector<size_t> ends;   // offset behind header (if any) and each message, with the blank line behind it
  Fault fault = Fault::none;
  size_t read_limit = 0;      // Fault::read: bytes delivered before the failure
};

struct World {
  std::map<std::string, std::vector<FileModel>> dirs;
  std::set<std::string> unlistable;
};

struct Config {
  std::deque<std::string> path;
  std::string charset = "UTF-8";
  bool fuzzy = true;
};

struct WorldOptions {
  std::vector<std::string> codes;   // languages files are made for
  size_t max_files = 5;
  bool fuzzy = false;
  bool charsets = false;            // ISO-8859-1 files
  bool noise = true;                // files that must not matter
};

bool is_po(const std::string& name);
int ref_score(const tg::Language& a, const tg::Language& b);
// language of a .po file name, undefined if unknown
tg::Language file_language(const std::string& name);
std::string gen_po_name(Tape& t, const std::string& code);
std::string noise_name(Tape& t);
tg::Language gen_language(Tape& t, const std::vector<std::string>& codes);
const std::vector<std::string>& rich_codes();
int rule_of(const std::string& code);
FileModel gen_file(Tape& t, const std::string& name, const std::string& code, const std::string& tag, const WorldOptions& o);
void set_fault(FileModel& f, Fault fault, size_t read_limit = 0);
std::vector<FileModel> gen_dir(Tape& t, const std::string& tag, const WorldOptions& o);
std::string show(const World& w);

// a file system on a World, with the faults
class WorldFileSystem : public tg::FileSystem {
public:
  struct State {
    World world;
    std::set<std::string> hit;   // paths whose fault was met
  };
  explicit WorldFileSystem(std::shared_ptr<State> s) : state(s) {}
  std::vector<std::string> open_directory(const std::string& pathname) override;
  std::unique_ptr<std::istream> open_file(const std::string& filename) override;
  std::shared_ptr<State> state;
};

std::set<tg::Language> expected_languages(const World& w, const Config& c);

struct Own {
  Dump dump;
  bool rule = false;
  std::set<Key> open;          // anything goes (entry cut by a read failure)
  std::vector<std::string> loaded;
};
// all contents the dictionary may have (several only when files of a directory match equally well;
// none when there are too many possibilities)
std::vector<Own> expected_own(const World& w, const Config& c, const tg::Language& lang);

const std::set<Key>& all_keys();
// Checks content and lookups of the dictionary `d` the manager gave for `lang`, fallback
// included; returns a description of the first problem or "".
std::string check_dictionary(tg::DictionaryManager& m, tg::Dictionary& d, const World& w, const Config& c, const tg::Language& lang, bool* via_fallback = nullptr);
// plain text of everything observable of a dictionary, for comparing two of them
std::string fingerprint(tg::Dictionary& d);

} // namespace model
