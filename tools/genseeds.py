import os,sys
V="/verif/tools/seeds/"
PRE=open(V+"c05-first-form.txt").read().split("@@ demo.cpp\n",1)[1].split("int main()",1)[0]
def seed(sid, prop, needs, breaks, edits, main, helpers="", flags=""):
    o="property: %s\nneeds: %s\nbreaks: %s\n"%(prop,needs,breaks)
    for f,a,b in edits: o+="@@ %s\n%s\n----\n%s\n"%(f,a.strip("\n"),b.strip("\n"))
    if flags: o+="@@ flags\n%s\n"%flags
    o+="@@ demo.cpp\n"+PRE+helpers+"\nint main()\n{\n"+main.strip("\n")+"\n}\n"
    open(V+sid+".txt","w").write(o)
MEM='''
struct MemFS : FileSystem {
  std::map<std::string, std::vector<std::string>> dirs;
  std::map<std::string, std::string> files;
  std::set<std::string> failing;
  std::vector<std::string> open_directory(const std::string& p) override { return dirs[p]; }
  std::unique_ptr<std::istream> open_file(const std::string& p) override
  {
    std::unique_ptr<std::istream> s(new std::istringstream(files[p]));
    if (failing.count(p)) s->setstate(std::ios::failbit);
    return s;
  }
  void put(const std::string& dir, const std::string& name, const std::string& text) { dirs[dir].push_back(name); files[dir + "/" + name] = text; }
};
'''
REP='''
static std::vector<std::string> reports;
static void keep(const std::string& s) { reports.push_back(s); }
static void record() { silent(); Log::set_log_warning_callback(&keep); Log::set_log_error_callback(&keep); }
'''
END="  return failures ? 1 : 0;\n"
exec(open(sys.argv[1]).read())
