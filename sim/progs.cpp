#include "progs.h"
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

ToolWorld TW;

std::string hex16(uint64_t v) { return strf("%016llx", (unsigned long long) v); }
std::string contentHash(const std::string &s) { return hex16(fnv(0xcbf29ce484222325ull, s.data(), s.size())); }
bool saysNothing(const std::string &words) { return fnv(0xcbf29ce484222325ull, words.data(), words.size()) % 3 == 0; }
std::string baseName(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
std::string bulkText(const std::string &seed, size_t n) {
  Rng r(fnvs(1, seed)); std::string o; o.reserve(n + 32);
  int line = 0;
  while (o.size() < n) { o += strf("%s.%d:%llx", seed.substr(0, 8).c_str(), line++, (unsigned long long) r.next()); o += r.chance(30) ? '\n' : ' '; if (seed[0] == 'o' || seed[0] == 'e') { if (r.chance(6)) o += '\0'; if (r.chance(6)) o += '\xff'; } }
  o.resize(n); if (n) o[n - 1] = '#'; return o;
}
std::string genContent(const std::string &outBase, const std::vector<std::string> &lines, const std::vector<std::string> &words, const std::vector<std::pair<std::string, std::string>> &ins) {
  std::string o; for (auto &l : lines) o += l + "\n";
  o += "//gen " + outBase; for (auto &w : words) o += " [" + w + "]"; for (auto &i : ins) o += " <" + i.first + ":" + contentHash(i.second) + ">"; o += "\n"; return o;
}
std::string objContent(const std::string &objBase, const std::string &cc, const std::vector<std::string> &flags, const std::string &srcBase, const std::string &srcData, const std::vector<std::pair<std::string, std::string>> &incs) {
  std::string o = "OBJ " + objBase + " " + cc; for (auto &f : flags) o += " [" + f + "]"; o += " " + srcBase + ":" + contentHash(srcData); for (auto &i : incs) o += " <" + i.first + ":" + contentHash(i.second) + ">"; return o + "\n";
}
std::string ldContent(const std::string &outBase, const std::vector<std::string> &words, const std::vector<std::pair<std::string, std::string>> &objs) {
  std::string o = "LINK " + outBase; for (auto &w : words) o += " [" + w + "]"; for (auto &i : objs) o += " <" + i.first + ":" + contentHash(i.second) + ">"; return o + "\n";
}
std::vector<std::string> includesOf(const std::string &d) {
  std::vector<std::string> r; size_t i = 0;
  while ((i = d.find("#include \"", i)) != std::string::npos) { i += 10; size_t j = d.find('"', i); if (j == std::string::npos) break; r.push_back(d.substr(i, j - i)); i = j; }
  return r;
}

// ---------------------------------------------------------------- helpers used by the stubs

static void nap() { if (TW.slowPct && S->rng.chance(TW.slowPct)) S->sSleep(50000 + (int64_t) S->rng.below(S->rng.chance(10) ? 400000000 : 3000000)); }
static bool slurp(const std::string &path, std::string *out, int fd0 = -1) {
  int fd = fd0 >= 0 ? fd0 : S->sOpen(path, O_RDONLY, 0); if (fd < 0) return false;
  std::string tmp; char *b = (char*) malloc(16384); long n; bool ok = true;
  try { while ((n = S->sRead(fd, b, 16384)) > 0) tmp.append(b, n); } catch (...) { free(b); throw; }
  free(b); if (n < 0) ok = false; if (fd0 < 0) S->sClose(fd); *out = tmp; return ok;
}
static bool wr(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { long n = S->sWrite(fd, s.data() + o, s.size() - o); if (n < 0) return false; o += n; } return true; }
static void err(const std::string &s) { wr(2, s + "\n"); }
static void tag(Proc &p, const std::string &t) { if (p.execRec >= 0) S->execs[p.execRec].tag = t; }
static int failOf(const std::string &base) { auto it = TW.fail.find(base); return it == TW.fail.end() ? FM_NONE : it->second; }
static int dieNow(Proc &p, int mode) { if (mode == FM_SIGNAL) { S->finishProc(&p, SIGSEGV); p.killed = true; throw Killed(); } return 3; }
static bool putFile(const std::string &path, const std::string &data, bool partial = false, unsigned mode = 0666) {
  int fd = S->sOpen(path, O_WRONLY | O_CREAT | O_TRUNC, mode); if (fd < 0) return false;
  size_t h = data.size() / 2; bool ok = wr(fd, data.substr(0, h)); nap();
  if (!partial) ok = ok && wr(fd, data.substr(h));
  int r = S->sClose(fd); return ok && r == 0;
}
// a writer of bulk output with irregular chunks
static void dribble(int fd, const std::string &s) {
  size_t o = 0; while (o < s.size()) { size_t k; switch (S->rng.below(5)) { case 0: k = 1 + S->rng.below(80); break; case 1: k = 1023; break; case 2: k = 1024; break; case 3: k = 4096; break; default: k = 1 + S->rng.below(9000); } k = std::min(k, s.size() - o); if (!wr(fd, s.substr(o, k))) return; o += k; nap(); }
}

// gen [-o OUT] [-i IN] [-l LINE] [-s N] [-e N] [-n TAG] [-d DIR-LISTING] words...
static int genMain(Proc &p) {
  std::vector<std::string> outs, lines, words; std::vector<std::string> ins; std::string tg, copy, by; long so = 0, se = 0;
  { InodeP n; if (!S->resolve(nullptr, p.exe, &n) && n->data.compare(0, 10, "!STUB gen ") == 0) by = n->data.substr(10, n->data.size() - 11); } // which copy of the tool this is
  auto &a = p.argv;
  for (size_t i = 1; i < a.size(); ++i) {
    auto val = [&] { return i + 1 < a.size() ? a[++i] : std::string(); };
    if (a[i] == "-o") outs.push_back(val()); else if (a[i] == "-i") ins.push_back(val()); else if (a[i] == "-l") lines.push_back(val());
    else if (a[i] == "-s") so = atol(val().c_str()); else if (a[i] == "-e") se = atol(val().c_str()); else if (a[i] == "-n") tg = val(); else if (a[i] == "-c") copy = val(); else if (a[i] == "-a") { while (i + 1 < a.size()) ins.push_back(a[++i]); } else words.push_back(a[i]);
  }
  std::string key = outs.empty() ? tg : S->absPath(&p, outs[0]); tag(p, "gen:" + key);
  int fm = outs.empty() ? failOf(tg) : failOf(baseName(outs[0]));
  nap();
  if (fm == FM_EXIT_EARLY || fm == FM_SIGNAL) { if (fm == FM_EXIT_EARLY) err("gen: injected failure " + key); return dieNow(p, fm); }
  std::vector<std::pair<std::string, std::string>> in;
  for (auto &f : ins) { std::string d; if (!slurp(f, &d)) { err("gen: cannot read " + f); return 2; } in.push_back({ baseName(f), d }); }
  if (!by.empty()) words.push_back("by " + by);
  std::string cdata; if (!copy.empty() && !slurp(copy, &cdata)) { err("gen: cannot read " + copy); return 2; }
  std::string outText = so ? bulkText("o" + (key.empty() ? "x" : baseName(key)), so) : "", errText = se ? bulkText("e" + (key.empty() ? "x" : baseName(key)), se) : "";
  nap();
  if (so && se) { size_t o = 0, e = 0; while (o < outText.size() || e < errText.size()) { bool first = S->rng.chance(50); size_t k = 1 + S->rng.below(S->rng.chance(20) ? 70000 : 5000); auto &t = first ? outText : errText; size_t &q = first ? o : e; k = std::min(k, t.size() - q); if (k) { if (!wr(first ? 1 : 2, t.substr(q, k))) return 4; q += k; nap(); } } }
  else if (so) dribble(1, outText); else if (se) dribble(2, errText);
  for (auto &o : outs) { nap(); if (!putFile(o, copy.empty() ? genContent(baseName(o), lines, words, in) : cdata, fm == FM_EXIT_PARTIAL, copy.empty() ? 0666 : 0777)) { err("gen: cannot write " + o); return 5; } if (fm == FM_EXIT_PARTIAL) return 6; }
  nap();
  return fm == FM_EXIT_LATE ? 6 : 0;
}

// cp FROM TO (exact copy)
static int cpMain(Proc &p) {
  if (p.argv.size() < 3) return 1; std::string d; tag(p, "cp:" + S->absPath(&p, p.argv[2])); nap();
  int fm = failOf(baseName(p.argv[2])); if (fm == FM_EXIT_EARLY || fm == FM_SIGNAL) return dieNow(p, fm);
  if (!slurp(p.argv[1], &d)) { err("cp: cannot read " + p.argv[1]); return 2; } if (!putFile(p.argv[2], d, fm == FM_EXIT_PARTIAL)) return 5; return fm ? 3 : 0;
}

// say [-n TAG] [-s N] [-e N] [-f FILE] words...   : prints its words, then the file, then N bytes
static int sayMain(Proc &p) {
  std::vector<std::string> words; std::string tg, file; long so = 0, se = 0; bool quiet = false; auto &a = p.argv;
  for (size_t i = 1; i < a.size(); ++i) {
    auto val = [&] { return i + 1 < a.size() ? a[++i] : std::string(); };
    if (a[i] == "-n") tg = val(); else if (a[i] == "-s") so = atol(val().c_str()); else if (a[i] == "-e") se = atol(val().c_str()); else if (a[i] == "-f") file = val(); else if (a[i] == "-q") quiet = true; else words.push_back(a[i]);
  }
  tag(p, "say:" + tg); nap();
  int fm = failOf(tg); if (fm == FM_EXIT_EARLY || fm == FM_SIGNAL) return dieNow(p, fm);
  std::string o; for (size_t i = 0; i < words.size(); ++i) o += (i ? " " : "") + words[i];
  if (quiet && saysNothing(o)) { o.clear(); file.clear(); }
  if (!o.empty() && baseName(a[0]) == "tell") o = "told " + o;
  if (!file.empty()) { std::string d; if (!slurp(file, &d)) return 2; o += (o.empty() ? "" : " ") + d; }
  if (so) { if (!o.empty()) o += " "; o += bulkText("s" + tg, so); }
  if (fm == FM_EXIT_PARTIAL) o.resize(o.size() / 2);
  if (se) { std::string e = bulkText("e" + tg, se); size_t x = 0, y = 0; while (x < o.size() || y < e.size()) { bool f = S->rng.chance(50); size_t k = 1 + S->rng.below(S->rng.chance(20) ? 70000 : 5000); auto &t = f ? o : e; size_t &q = f ? x : y; k = std::min(k, t.size() - q); if (k) { if (!wr(f ? 1 : 2, t.substr(q, k))) return 4; q += k; nap(); } } }
  else dribble(1, o);
  nap(); return fm ? 3 : 0;
}

// ld -o OUT inputs...  (words starting with '-' are flags)
static int ldMain(Proc &p) {
  std::string out; std::vector<std::string> words, objs; auto &a = p.argv;
  for (size_t i = 1; i < a.size(); ++i) { if (a[i] == "-o" && i + 1 < a.size()) out = a[++i]; else if (a[i][0] == '-') words.push_back(a[i]); else objs.push_back(a[i]); }
  tag(p, "ld:" + S->absPath(&p, out)); nap();
  int fm = failOf(baseName(out)); if (fm == FM_EXIT_EARLY || fm == FM_SIGNAL) return dieNow(p, fm);
  std::vector<std::pair<std::string, std::string>> in;
  for (auto &f : objs) { std::string d; if (!slurp(f, &d)) { err("ld: cannot open " + f); return 1; } in.push_back({ baseName(f), d }); }
  nap(); if (!putFile(out, ldContent(baseName(out), words, in), fm == FM_EXIT_PARTIAL, 0777)) return 1;
  return fm ? 3 : 0;
}

struct CcRun { std::vector<std::string> dirs; std::vector<std::pair<std::string, std::string>> incs; std::vector<std::string> names; std::set<std::string> seen; std::string missing; };
static bool scan(CcRun &c, const std::string &path, const std::string &data) {
  size_t sl = path.rfind('/'); std::string dir = sl == std::string::npos ? "" : path.substr(0, sl + 1);
  for (auto &inc : includesOf(data)) {
    std::vector<std::string> cand{ dir + inc }; for (auto &d : c.dirs) cand.push_back(d.empty() || d.back() == '/' ? d + inc : d + "/" + inc);
    bool ok = false;
    for (auto &n : cand) { InodeP ino; if (S->sStat(n, &ino, true) || ino->type != I_FILE) continue; ok = true; std::string ap = S->pathOf(ino.get()); if (!c.seen.insert(ap).second) break;
      std::string d; if (!slurp(n, &d)) { c.missing = n; return false; } c.incs.push_back({ baseName(n), d }); c.names.push_back(n.compare(0, 2, "./") == 0 ? n.substr(2) : n); if (!scan(c, n, d)) return false; break; }
    if (!ok) { c.missing = inc; return false; }
  }
  return true;
}
static int ccMain(Proc &p) {
  std::string src, obj; std::vector<std::string> flags; CcRun c; bool mmd = false; auto &a = p.argv;
  for (size_t i = 1; i < a.size(); ++i) {
    if (a[i] == "-c" && i + 1 < a.size()) src = a[++i]; else if (a[i] == "-o" && i + 1 < a.size()) obj = a[++i]; else if (a[i] == "-MMD") mmd = true; else if (a[i].compare(0, 2, "-I") == 0) { c.dirs.push_back(a[i].substr(2)); if (a[i] != "-I./") flags.push_back("-I" + baseName(a[i])); } else flags.push_back(a[i]);
  }
  tag(p, "cc:" + S->absPath(&p, obj)); nap();
  if (TW.noise && S->rng.chance(TW.noise)) err("cc: note: compiling " + baseName(src));
  int fm = failOf(baseName(obj)); if (fm == FM_EXIT_EARLY || fm == FM_SIGNAL) return dieNow(p, fm);
  std::string data; if (!slurp(src, &data)) { err("cc: no input file " + src); return 1; }
  for (auto &f : flags) if (f.compare(0, 7, "-specs=") == 0) { std::string t; if (!slurp(f.substr(7), &t)) { err("cc: cannot read " + f); return 1; } f = "-specs=" + baseName(f) + ":" + contentHash(t); }
  if (data.find("#error") != std::string::npos) { err("cc: " + src + ": #error"); return 1; }
  nap();
  if (!scan(c, src, data)) { err("cc: " + src + ": fatal error: " + c.missing + ": No such file"); return 1; }
  nap();
  if (mmd) {
    size_t d = obj.rfind('.'); std::string o = obj + ":", dep = obj.substr(0, d) + ".d"; size_t col = o.size();
    auto esc = [](const std::string &n) { std::string r; for (char ch : n) { if (ch == ' ' || ch == '#') r += '\\'; if (ch == '$') r += '$'; r += ch; } return r; };   // as gcc writes names
    std::vector<std::string> nm{ esc(src) }; for (auto &n : c.names) nm.push_back(esc(n));
    for (auto &n : nm) { if (col + n.size() + 1 > 76 && &n != &nm[0]) { o += " \\\n " + n; col = n.size() + 1; } else { o += " " + n; col += n.size() + 1; } }
    if (!putFile(dep, o + "\n")) { err("cc: cannot write " + dep); return 1; }
  }
  nap();
  if (!putFile(obj, objContent(baseName(obj), baseName(a[0]), flags, baseName(src), data, c.incs), fm == FM_EXIT_PARTIAL)) { err("cc: cannot write " + obj); return 1; }
  nap(); return fm ? 1 : 0;
}

static int failMain(Proc &p) { tag(p, "false"); return 1; }
static int trueMain(Proc &p) { tag(p, "true"); return 0; }

// ---------------------------------------------------------------- a small shell

struct Sh { Proc &p; std::map<std::string, std::string> vars; std::vector<std::string> args; std::vector<int> bg; int last = 0; bool exiting = false; bool errexit = false; };
static const char* envVal(const std::vector<std::string> &env, const std::string &k) { for (auto &e : env) if (e.size() > k.size() && e[k.size()] == '=' && e.compare(0, k.size(), k) == 0) return e.c_str() + k.size() + 1; return nullptr; }
static std::string shVar(Sh &s, const std::string &n) {
  if (n == "?") return strf("%d", s.last); if (n.size() == 1 && isdigit(n[0])) { size_t i = n[0] - '0'; return i < s.args.size() ? s.args[i] : ""; }
  auto it = s.vars.find(n); if (it != s.vars.end()) return it->second; const char *e = envVal(s.p.env, n); return e ? e : "";
}
struct Tok { std::string t; bool op; };
static bool shTok(Sh &s, const std::string &l, size_t &i, Tok &t) {
  while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) ++i;
  if (i >= l.size() || l[i] == '#') { i = l.size(); return false; }
  t = { "", false };
  if (l[i] == ';' || l[i] == '>' || l[i] == '&' || l[i] == '|') { t.op = true; t.t = l[i++]; if (i < l.size() && l[i] == t.t[0] && t.t[0] != ';') t.t += l[i++]; return true; }
  auto expand = [&](size_t &k) { ++k; if (k < l.size() && l[k] == '{') { size_t e = l.find('}', k); std::string n = l.substr(k + 1, e - k - 1); k = e + 1; return shVar(s, n); } if (k < l.size() && (isdigit(l[k]) || l[k] == '?')) { std::string n(1, l[k++]); return shVar(s, n); } size_t e = k; while (e < l.size() && (isalnum(l[e]) || l[e] == '_')) ++e; std::string n = l.substr(k, e - k); k = e; return shVar(s, n); };
  while (i < l.size() && !strchr(" \t;>&|", l[i])) {
    if (l[i] == '\'') { size_t e = l.find('\'', i + 1); if (e == std::string::npos) e = l.size(); t.t += l.substr(i + 1, e - i - 1); i = e + 1; }
    else if (l[i] == '"') { ++i; while (i < l.size() && l[i] != '"') { if (l[i] == '$') t.t += expand(i); else if (l[i] == '\\' && i + 1 < l.size()) { t.t += l[i + 1]; i += 2; } else t.t += l[i++]; } ++i; }
    else if (l[i] == '$') t.t += expand(i);
    else if (l[i] == '\\' && i + 1 < l.size()) { t.t += l[i + 1]; i += 2; }
    else t.t += l[i++];
  }
  return true;
}
static std::string lookPath(Sh &s, const std::string &n) {
  if (n.find('/') != std::string::npos) return n; const char *pp = envVal(s.p.env, "PATH"); std::string ps = pp ? pp : "/usr/bin:/bin"; size_t i = 0;
  while (i <= ps.size()) { size_t j = ps.find(':', i); if (j == std::string::npos) j = ps.size(); std::string c = ps.substr(i, j - i) + "/" + n; InodeP ino; if (!S->resolve(&s.p, c, &ino) && ino->type == I_FILE && (ino->mode & 0111)) return c; i = j + 1; }
  return "";
}
static int waitPid(int pid) { int st = 0; for (;;) { int r = S->sWait(pid, &st, 0); if (r == -EINTR) continue; break; } return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); }
static int shCmd(Sh &s, std::vector<std::string> w, const std::string &redir, bool app, bool bg) {
  if (w.empty()) return 0;
  nap();
  if (w.size() == 1) { size_t e = w[0].find('='); if (e != std::string::npos && e > 0 && w[0].find('/') > e) { s.vars[w[0].substr(0, e)] = w[0].substr(e + 1); return 0; } }
  int fd = -1; if (!redir.empty()) { fd = S->sOpen(redir, O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0666); if (fd < 0) { err("sh: cannot create " + redir); return 2; } }
  int rc = 0; const std::string &c = w[0];
  if (c == "exit") { s.exiting = true; return w.size() > 1 ? atoi(w[1].c_str()) : s.last; }
  else if (c == "set") { s.errexit = true; }
  else if (c == "wait") { for (int b : s.bg) { int r = waitPid(b); if (r) rc = r; } s.bg.clear(); }
  else if (c == "echo") { std::string o; for (size_t i = 1; i < w.size(); ++i) o += (i > 1 ? " " : "") + w[i]; if (!wr(fd >= 0 ? fd : 1, o + "\n")) rc = 1; }
  else if (c == "readf") { std::string d; if (w.size() < 3 || !slurp(w[2], &d)) { d = ""; } while (!d.empty() && d.back() == '\n') d.pop_back(); for (auto &ch : d) if (ch == '\n') ch = ' '; s.vars[w[1]] = d; }
  else if (c == "has") { std::string d; rc = (w.size() >= 3 && slurp(w[1], &d) && d.find(w[2]) != std::string::npos) ? 0 : 1; }
  else if (c == "nonempty") { rc = w.size() >= 2 && !w[1].empty() ? 0 : 1; }
  else if (c == "cd") { rc = w.size() > 1 && S->sChdir(w[1]) == 0 ? 0 : 1; }
  else if (c == "cat") { for (size_t i = 1; i < w.size(); ++i) { std::string d; if (!slurp(w[i], &d)) { err("cat: " + w[i]); rc = 1; } else if (!wr(fd >= 0 ? fd : 1, d)) rc = 1; } }
  else {
    std::string ex = lookPath(s, c); if (ex.empty()) { err("sh: " + c + ": not found"); rc = 127; }
    else { std::vector<std::string> env = s.p.env; int pid = S->sSpawn(ex, w, env, fd); if (pid < 0) { err("sh: cannot run " + c); rc = 126; } else if (bg) { s.bg.push_back(pid); } else rc = waitPid(pid); }
  }
  if (fd >= 0) S->sClose(fd);
  return rc;
}
static int shLine(Sh &s, const std::string &l) {
  size_t i = 0; Tok t; std::vector<std::string> w; std::string redir; bool app = false, wantRedir = false, skip = false; int rc = 0; if (l.find_first_not_of(" \t") == std::string::npos || l[l.find_first_not_of(" \t")] == '#') return s.last;
  auto flush = [&](bool bg) { if (!skip && !w.empty()) { s.last = rc = shCmd(s, w, redir, app, bg); } w.clear(); redir.clear(); app = false; };
  while (shTok(s, l, i, t)) {
    if (t.op) {
      if (t.t == ">" || t.t == ">>") { wantRedir = true; app = t.t == ">>"; continue; }
      flush(t.t == "&"); if (s.exiting) return rc;
      if (t.t == "&&") { if (rc) skip = true; } else if (t.t == "||") { skip = rc == 0; } else { if (rc && s.errexit && !skip) { s.exiting = true; return rc; } skip = false; }
      continue;
    }
    if (wantRedir) { redir = t.t; wantRedir = false; } else w.push_back(t.t);
  }
  bool tested = skip; flush(false); if (rc && s.errexit && !tested && !s.exiting) s.exiting = true; return rc;
}
static int shMain(Proc &p) {
  Sh s{ p }; auto &a = p.argv; std::string text;
  if (a.size() >= 3 && a[1] == "-c") { tag(p, "sh:-c"); text = a[2]; s.args.assign(a.begin() + 3, a.end()); }
  else if (a.size() >= 2) { tag(p, "check:" + a[1]); if (!slurp(a[1], &text)) { err("sh: cannot open " + a[1]); return 127; } s.args.assign(a.begin() + 1, a.end()); int fm = failOf(baseName(a[1])); if (fm == FM_EXIT_EARLY || fm == FM_SIGNAL) return dieNow(p, fm); if (fm == FM_EXIT_PARTIAL) text = text.substr(0, text.rfind('\n', text.size() - 2) + 1) + "exit 3\n"; if (fm == FM_EXIT_LATE) text += "\nexit 3\n"; }
  size_t i = 0;
  while (i < text.size() && !s.exiting) { size_t j = text.find('\n', i); if (j == std::string::npos) j = text.size(); s.last = shLine(s, text.substr(i, j - i)); i = j + 1; }
  return s.last;
}

static struct { const char *path; int (*fn)(Proc&); } TOOLS[] = {
  { "/bin/sh", shMain }, { "/usr/bin/gen", genMain }, { "/usr/bin/say", sayMain }, { "/usr/bin/tell", sayMain }, { "/usr/bin/ld", ldMain }, { "/usr/bin/cc", ccMain }, { "/usr/bin/c++", ccMain }, { "/usr/bin/clang", ccMain }, { "/usr/bin/cp", cpMain }, { "/usr/bin/false", failMain }, { "/usr/bin/true", trueMain },
};
void installTools() {
  for (auto &t : TOOLS) S->hostWrite(t.path, std::string("!STUB ") + baseName(t.path) + "\n", 0755);
  S->hostWrite("/opt/ak/autark", "!STUB autark\n", 0755); S->hostWrite("/usr/bin/plainfile", "not a program\n", 0644);
  S->hostMkdirs("/tmp"); S->hostMkdirs("/home/u");
}
void progsExec(Proc &p, const std::string &exe) {
  if (exe == "/opt/ak/autark") { p.autark = true; imgNew(&p); p.body = [](Proc &q) { return imgMain(q); }; return; }
  for (auto &t : TOOLS) if (exe == t.path) { auto fn = t.fn; p.body = [fn](Proc &q) { return fn(q); }; return; }
  // a copy of a tool kept inside the project: the stub's name is in the file
  InodeP n; std::string nm; if (!S->resolve(nullptr, exe, &n) && n->data.compare(0, 6, "!STUB ") == 0) { nm = n->data.substr(6); nm = nm.substr(0, nm.find_first_of(" \n")); for (auto &t : TOOLS) if (baseName(t.path) == nm) { auto fn = t.fn; p.body = [fn](Proc &q) { return fn(q); }; return; } }
  p.body = [](Proc&) { return 126; };
}
