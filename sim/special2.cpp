// Directed families: dependent projects with install-time rules; library lookups and file globs; copied projects and shared caches.
#include "special.h"

// ---------------------------------------------------------------- dependent projects and install-time rules

void dependentProjects(Sp &s) {
  Rng &r = s.r; int nd = r.range(1, 3); Str prefix = r.chance(50) ? "/w/inst" : "/w/i x/p.r";
  // form 0: shell, 1: exec, 2: an ordinary rule whose product is a file the dependent project installs
  struct Dep { int form = 0, by = -1, unit = 0; bool chk = false, cc = false, conf = false, envd = false, lateOpt = false; int in = 1, word = 1, k = 1; bool fail = false, open = false; Str last; bool known = false; bool instKnown = false; std::map<Str, Str> inst; };
  std::vector<Dep> d(nd); bool sub = r.chance(35); bool plainRoi = r.chance(50), roiProd = plainRoi && r.chance(50);
  for (int i = 0; i < nd; ++i) { Dep &x = d[i]; x.form = r.below(3); x.chk = r.chance(50); x.cc = r.chance(40); x.conf = r.chance(50); x.envd = x.chk && r.chance(50); x.lateOpt = r.chance(30); if (i && r.chance(40)) { x.by = r.below(i); x.form = r.below(2); } x.unit = sub && r.chance(40); }
  auto dir = [&](int i) { return strf("/w/d%d", i); };
  Str sh, de = "e1"; int oin = 1, wd = 1, ver = 1; bool shSet = r.chance(50); if (shSet) sh = "s1"; bool roiFail = false;
  auto call = [&](int i) { Dep &x = d[i]; Str o, root = i % 2 ? dir(i) : x.by < 0 && !x.unit ? Str("../../") + strf("d%d", i) : dir(i);
    Str pre = x.form == 2 ? strf("/w/p/autark-cache/dep%d", i) : "'${INSTALL_PREFIX}'";
    if (x.form == 0) o = "run-on-install {\n  shell { autark --prefix ^{\"'\" ${INSTALL_PREFIX} \"'\"} set { _ if { ${SH} ^{-DOPT= ${SH}} } } " + root + " }\n}\n";
    else if (x.form == 1) o = "run-on-install {\n  exec { autark --prefix ${INSTALL_PREFIX} ^{-DOPT= ${SH nosh}} " + root + " }\n}\n";
    else o = strf("run {\n  always\n  exec { autark -R %s ^{-DOPT= ${SH nosh}} -J2 %s }\n  produces { %s/share/d%d/l%d.out }\n}\nrun { exec { gen -o b%d.out -i %s/share/d%d/l%d.out } consumes { %s/share/d%d/l%d.out } produces { b%d.out } }\n", pre.c_str(), dir(i).c_str(), pre.c_str(), i, i, i, pre.c_str(), i, i, pre.c_str(), i, i, i);
    return o; };
  auto kids = [&](int by) { Str o; for (int i = 0; i < nd; ++i) if (d[i].by == by && (by >= 0 || !d[i].unit)) o += call(i); return o; };
  auto write = [&] {
    Str t = strf("# v%d\nset { WD y%d }\n", ver, wd); t += "run { exec { gen -o a.out ${WD} -i S{in.txt} } consumes { S{in.txt} } produces { a.out } }\ninstall { share/o a.out }\n" + kids(-1);
    if (plainRoi) t += Str("run-on-install { ") + "exec { gen -o roi.out ${WD} -i a.out } consumes { a.out }" + (roiProd ? " produces { roi.out }" : "") + " }\n";
    if (sub) { t += "include { u/Autark }\n"; Str u = "run { exec { gen -o c.out ${WD} } produces { c.out } }\n"; for (int i = 0; i < nd; ++i) if (d[i].by < 0 && d[i].unit) u += call(i); s.wr("u/Autark", u); }
    s.wr("Autark", t); s.wr("in.txt", strf("o%d\n", oin));
    for (int i = 0; i < nd; ++i) { Dep &x = d[i]; Str q; if (x.chk) { q += "check { k.sh }\n"; s.wr(dir(i) + "/.autark/k.sh", Str("#!/bin/sh\nset -e\nreadf T ") + dir(i) + "/k.txt\nautark dep " + dir(i) + "/k.txt\nautark set \"KV=${T}\"\n" + (x.envd ? "autark env DE\nautark set \"KE=${DE}\"\n" : ""), 0755); s.wr(dir(i) + "/k.txt", strf("k%d\n", x.k)); }
      q += strf("run { exec { gen -o l%d.out ${OPT dflt} w%d", i, x.word) + (x.chk ? " ${KV}" : "") + (x.envd ? " ${KE noenv}" : "") + strf(" -i S{in.txt} } consumes { S{in.txt} } produces { l%d.out } }\n", i);
      if (x.cc) { q += "cc { m.c set { _ -O1 ^{-D ${OPT none}} } }\n"; s.wr(dir(i) + "/m.c", "int m;\n"); }
      if (x.conf) { q += "configure { t.txt.in }\n"; s.wr(dir(i) + "/t.txt.in", "opt=@OPT@ prefix=@INSTALL_PREFIX@ unit=@AUTARK_ROOT_DIR@\n"); }
      q += strf("install { share/d%d l%d.out S{in.txt} }\n", i, i) + kids(i); s.wr(dir(i) + "/Autark", q); s.wr(dir(i) + "/in.txt", strf("d%d\n", x.in)); } };
  auto optOf = [&](int i, bool direct) -> std::optional<Str> { Dep &x = d[i]; if (direct) return std::nullopt; // what a dependent project receives as OPT
    if (x.by >= 0) { Str up = x.form == 0 ? "" : "nosh"; if (x.form == 0) return std::nullopt; return up; }   // SH is not defined in dependent projects
    if (x.form == 0) return shSet && !sh.empty() ? std::optional<Str>(sh) : std::nullopt; return shSet ? sh : Str("nosh"); };
  auto lwords = [&](int i, bool direct) { Dep &x = d[i]; Strs w; auto o = optOf(i, direct); if (!o || !o->empty()) w.push_back(o ? *o : "dflt"); w.push_back(strf("w%d", x.word)); if (x.chk) w.push_back(strf("k%d", x.k)); if (x.envd && !de.empty()) w.push_back(de); return w; };
  auto lcontent = [&](int i, bool direct) { return genContent(strf("l%d.out", i), {}, lwords(i, direct), { { "in.txt", strf("d%d\n", d[i].in) } }); };
  auto key = [&](int i, bool direct) { return lcontent(i, direct); };
  std::function<Str(int)> preOf = [&](int i) -> Str { return d[i].form == 2 ? strf("/w/p/autark-cache/dep%d", i) : d[i].by >= 0 ? preOf(d[i].by) : prefix; };
  std::function<bool(int)> early = [&](int i) { return d[i].form == 2 || (d[i].by >= 0 && early(d[i].by)); };
  int steps = r.range(3, 6); bool first = true; s.feat("dependent projects");
  for (int k = 0; k < steps && !s.bad(); ++k) {
    if (k && !s.mk.ops.count(k)) { int n = r.chance(30) ? 0 : r.range(1, 2); for (int q = 0; q < n; ++q) { Dep &x = d[r.below(nd)]; switch (r.below(10)) { case 0: ++oin; break; case 1: case 2: ++x.in; break; case 3: ++x.word; break; case 4: ++x.k; break; case 5: de = r.chance(25) ? "" : strf("e%d", (int) r.range(1, 3)); break; case 6: case 7: shSet = r.chance(70); sh = r.chance(20) ? "" : strf("s%d", (int) r.range(1, 3)); break; case 8: ++wd; break; default: ++ver; } } }
    else if (k) { for (int q = 0; q < 12; ++q) r.next(); }
    s.R.opIds.push_back(k); s.env.resize(2); if (!de.empty()) s.env.push_back("DE=" + de);
    bool inst = r.chance(65), hasFault = false; for (auto &f : s.faults) if (f.build == s.b + 1) hasFault = true;
    for (auto &x : d) x.fail = false; TW.fail.clear(); roiFail = false; if (!hasFault && r.chance(25) && k + 1 < steps) { int i = r.below(nd); d[i].fail = true; TW.fail[strf("l%d.out", i)] = 1 + r.below(4); } if (!hasFault && plainRoi && r.chance(10) && k + 1 < steps) { roiFail = true; TW.fail["roi.out"] = 1; }
    write(); auto before = s.snap();
    bool direct = !hasFault && k && r.chance(10); int di = direct ? (int) r.below(nd) : -1; Strs a = s.base(r.range(1, 3)); Str cwd = ROOT;
    Str tamper; if (inst && !direct && k && r.chance(20)) { int i = r.below(nd); if (!early(i)) { tamper = prefix + strf("/share/d%d/l%d.out", i, i); if (r.chance(50)) S->hostUnlink(tamper); else if (s.has(tamper)) S->hostWrite(tamper, "tampered"); s.note("installed file damaged: " + tamper); } }
    if (direct) { cwd = dir(di); s.note(strf("dependent project %d is built by itself", di)); } else { if (inst) { a.push_back("-R"); a.push_back(prefix); } if (shSet) a.push_back("-DSH=" + sh); if (r.chance(15)) a.push_back("-V"); }
    if (!s.run(a, cwd)) return; bool flt = s.faulted;
    std::map<int, int> nrun; for (size_t e = s.e0; e < S->execs.size(); ++e) { const Str &t = S->execs[e].tag; for (int i = 0; i < nd; ++i) if (t == "gen:" + dir(i) + strf("/autark-cache/l%d.out", i)) ++nrun[i]; }
    // expected course; after a fault it is open which rules are outdated
    struct Reach { int i; bool run; }; std::vector<Reach> reach; bool fail = false;
    std::function<void(int, bool)> visit = [&](int i, bool dr) { if (fail) return; Dep &x = d[i]; bool stale = x.open ? nrun[i] > 0 : !x.known || x.last != key(i, dr); reach.push_back({ i, stale }); if (x.fail && stale) { fail = true; return; }
      if (dr) return; for (int j = 0; j < nd; ++j) if (d[j].by == i) visit(j, false); };
    (void) first;
    if (direct) visit(di, true); else { for (int u = 0; u < 2; ++u) for (int i = 0; i < nd; ++i) if (d[i].by < 0 && d[i].form == 2 && d[i].unit == u) visit(i, false); if (inst && !fail) { // rules of included scripts follow those of their parent, as written
        for (int u = 0; u < 2; ++u) { for (int i = 0; i < nd; ++i) if (d[i].by < 0 && d[i].form != 2 && d[i].unit == u) visit(i, false); if (u == 0 && plainRoi && roiFail && !fail) fail = true; } } }
    std::map<int, int> nsub; for (size_t e = s.e0; e < S->execs.size(); ++e) { auto &x = S->execs[e]; if (x.prog != "/opt/ak/autark" || x.argv.size() < 2) continue; for (int i = 0; i < nd; ++i) if (baseName(x.argv.back()) == strf("d%d", i)) ++nsub[i]; }
    // nothing outside the trees of the projects and the prefixes
    { auto after = s.snap(); auto inCache = [&](const Str &p) { for (int i = 0; i < nd; ++i) if (under(p, dir(i) + "/autark-cache")) return true; return under(p, prefix) || (under(prefix, p)) || under(p, s.cache); };
      for (auto &kv : before) { if (inCache(kv.first)) continue; auto it = after.find(kv.first); if (it == after.end() || it->second != kv.second) { s.viol("outside", strf("build %d: %s was changed or removed", s.b, kv.first.c_str())); return; } } for (auto &kv : after) if (!before.count(kv.first) && !inCache(kv.first)) { s.viol("outside", strf("build %d: %s was created", s.b, kv.first.c_str())); return; }
      if (!inst || direct) for (auto &kv : after) { bool dep = false; for (int i = 0; i < nd; ++i) if (under(kv.first, dir(i))) { bool rr = false; for (auto &x : reach) if (x.i == i) rr = true; if (!rr) dep = true; } if ((under(kv.first, prefix) || dep) && (!before.count(kv.first) || before[kv.first] != kv.second)) { s.viol("subproject", strf("build %d: %s was changed although installation is not enabled", s.b, kv.first.c_str())); return; } } }
    auto good = [&](int i, bool dr) { Str w = lcontent(i, dr), p = dir(i) + strf("/autark-cache/l%d.out", i); if (s.rd(p) != w) { s.viol("stale.run", strf("build %d: %s is outdated: ", s.b, p.c_str()) + s.rd(p).substr(0, 120), p); return false; }
      if (d[i].cc && !s.has(dir(i) + "/autark-cache/m.o")) { s.viol("stale.cc", strf("build %d: m.o of project %d is missing", s.b, i)); return false; }
      Str pre = preOf(i); if (d[i].conf) { auto o = optOf(i, dr); Str c = s.rd(dir(i) + "/autark-cache/t.txt"), e = "opt=" + (o ? *o : Str()) + " prefix=" + (dr ? Str("/home/u/.local") : pre) + " unit=" + dir(i) + "\n"; if (c != e) { s.viol("stale.conf", strf("build %d: t.txt of project %d is %s", s.b, i, c.c_str()), "t.txt"); return false; } }
      if (dr) return true; for (int q = 0; q < 2; ++q) { Str f = pre + strf("/share/d%d/", i) + (q ? Str("in.txt") : strf("l%d.out", i)), e = q ? strf("d%d\n", d[i].in) : w; if (s.rd(f) != e) { s.viol("stale.install", strf("build %d: installed %s is outdated or missing", s.b, f.c_str()), f); return false; } } return true; };
    if (flt) { // the outcome is open, but success has to be true
      for (auto &x : d) { x.known = false; x.open = true; } if (!s.ok()) continue; for (auto &x : reach) if (!good(x.i, direct)) return; continue; }
    if (fail) { s.feat("dependent project failed"); if (s.ok()) { s.viol("ignored", strf("build %d succeeded although a dependent project failed", s.b)); return; } }
    else if (!s.mustPass()) return;
    for (auto &x : reach) { bool dr = direct; int n = nrun[x.i]; bool failed = d[x.i].fail && x.run; if (d[x.i].known || n > 1) { if (n != (x.run ? 1 : 0)) { s.viol(x.run && !n ? "stale.run" : "extra.run", strf("build %d executed the rule of project %d %d times instead of %d", s.b, x.i, n, (int) x.run), strf("l%d.out", x.i)); return; } } d[x.i].open = false; if (failed) { d[x.i].known = true; d[x.i].last = "(failed)"; continue; } if (!fail || true) { d[x.i].known = true; d[x.i].last = key(x.i, dr); } }
    if (!direct) for (int i = 0; i < nd; ++i) { bool rr = false; for (auto &x : reach) if (x.i == i) rr = true; if (nsub[i] != (rr ? 1 : 0)) { s.viol("subproject", strf("build %d invoked project %d %d times instead of %d", s.b, i, nsub[i], (int) rr)); return; } }
    if (fail || direct) { if (!fail) good(di, true); continue; }
    for (auto &x : reach) if (!good(x.i, false)) return;
    Str a0 = genContent("a.out", {}, { strf("y%d", wd) }, { { "in.txt", strf("o%d\n", oin) } }); if (s.rd(s.cache + "/a.out") != a0) { s.viol("stale.run", strf("build %d: a.out is outdated", s.b), "a.out"); return; }
    if (sub && s.rd(s.cache + "/u/c.out") != genContent("c.out", {}, { strf("y%d", wd) }, {})) { s.viol("stale.run", strf("build %d: u/c.out is outdated", s.b), "c.out"); return; }
    for (int i = 0; i < nd; ++i) if (d[i].form == 2 && s.rd(s.cache + strf(d[i].unit ? "/u/b%d.out" : "/b%d.out", i)) != genContent(strf("b%d.out", i), {}, {}, { { strf("l%d.out", i), lcontent(i, false) } })) { s.viol("stale.run", strf("build %d: b%d.out is outdated", s.b, i), strf("b%d.out", i)); return; }
    if (inst && s.rd(prefix + "/share/o/a.out") != a0) { s.viol("stale.install", strf("build %d: installed a.out is outdated or missing", s.b), "a.out"); return; }
    // install-time rules are executed after all others, every time
    size_t lastOwn = 0, firstSub = S->execs.size(); int roi = 0; for (size_t e = s.e0; e < S->execs.size(); ++e) { auto &x = S->execs[e]; if (x.tag == "gen:" + s.cache + "/roi.out") { ++roi; firstSub = std::min(firstSub, e); if (x.cwd != s.cache) { s.viol("cwd", strf("build %d: install-time command was executed in %s", s.b, x.cwd.c_str())); return; } } else if (x.tag.compare(0, 4 + s.cache.size() + 1, "gen:" + s.cache + "/") == 0) lastOwn = e; if (x.prog == "/opt/ak/autark" && x.argv.size() > 1) for (int i = 0; i < nd; ++i) if (!early(i) && baseName(x.argv.back()) == strf("d%d", i)) firstSub = std::min(firstSub, e); }
    if (lastOwn > firstSub) { s.viol("order", strf("build %d: %s was executed after an install-time rule", s.b, S->execs[lastOwn].tag.c_str())); return; }
    if (plainRoi) { if (roi != (inst ? 1 : 0)) { s.viol("subproject", strf("build %d executed an install-time rule %d times instead of %d", s.b, roi, (int) inst)); return; } if (inst && s.rd(s.cache + "/roi.out") != genContent("roi.out", {}, { strf("y%d", wd) }, { { "a.out", a0 } })) { s.viol("stale.run", strf("build %d: roi.out is outdated", s.b), "roi.out"); return; } }
    s.feat(inst ? "dependent projects installed" : "built without installation"); first = false;
  }
}

// ---------------------------------------------------------------- library lookups and file globs

void lookups(Sp &s) {
  Rng &r = s.r; int nl = r.range(1, 3); bool sub = r.chance(40), useGlob = r.chance(75), useCc = useGlob && r.chance(60), useFe = useGlob && r.chance(60), useRedir = false; if (useGlob && !useCc && !useFe) useFe = true;
  struct Lib { Strs names; int form = 0; bool cond = false, neg = false, content = false; int scope = 0; }; std::vector<Lib> L(nl);
  for (int i = 0; i < nl; ++i) { Lib &l = L[i]; int n = r.range(1, 3); static const char *ext[] = { ".a", ".so", ".so.1" }; for (int k = 0; k < n; ++k) l.names.push_back(strf("libz%d%s", i, ext[k])); l.cond = r.chance(35); l.neg = l.cond && r.chance(40); l.content = !l.cond && r.chance(40); l.scope = sub ? r.below(3) : 0; }   // 0 this script, 1 root, 2 parent (from the included script)
  static const char *bases[] = { "HOME/.local", "/usr/local", "/usr", "" }; static const char *sd[] = { "lib64", "lib" }; Str home = "/home/u"; int lver = 1;
  useRedir = useFe && r.chance(40); int xPat = r.below(5); // one more pattern which matches nothing, or a name of no file
  std::set<Str> files; Str ov = "o"; bool quotePat = r.chance(30), deepGlob = r.chance(30), subGlob = sub && useGlob && r.chance(50); Str gdir = subGlob ? "u/" : "";
  auto path = [&](int b, int d, const Str &n) { Str x = b == 4 ? s.cache : b == 5 ? s.cache + "/u" : b == 0 ? home + "/.local" : Str(bases[b]); return x + "/" + sd[d] + "/" + n; };
  auto find = [&](const Lib &l) -> Str { for (int b : { 5, 4, 0, 1, 2, 3 }) { if ((b == 0 && home.empty()) || (b == 5 && !l.scope)) continue; for (int d = 0; d < 2; ++d) for (auto &n : l.names) { Str p = path(b, d, n); if (s.has(p)) return p; } } return ""; };
  auto pick = [&](Rng &q) { int b = q.below(sub ? 6 : 5); return b == 0 && home.empty() ? 1 : b; };   // also the cache directories of the project and of the script
  std::map<Str, int> txt, src; int tn = 0, sn = 0, hdr = 1; auto newTxt = [&] { txt[strf("g%d.txt", tn++)] = 1; }; auto newSrc = [&] { src[strf("c%d.c", sn++)] = 1; }; if (useFe) { newTxt(); newTxt(); } if (useCc) { newSrc(); newSrc(); }
  Str pat = deepGlob ? "s*" : "s"; int ver = 1, cOpt = r.below(3);
  auto write = [&] {
    Str t = strf("# v%d\n", ver), u = "# u\n", *w = &t;
    auto scopeName = [&](int i) { return L[i].scope == 1 ? strf("root { L%d }", i) : L[i].scope == 2 ? strf("parent { L%d }", i) : strf("L%d", i); };
    if (sub && !subGlob && r.chance(0)) {}
    for (int i = 0; i < nl; ++i) { Lib &l = L[i]; Str lib = Str("library { ") + scopeName(i); for (auto &n : l.names) lib += " " + n; lib += " }"; w = l.scope ? &u : &t;
      if (l.cond) { if (l.neg) *w += "if { !" + lib + strf("\n  set { H%d no }\n} else {\n  set { H%d yes }\n}\n", i, i); else *w += "if { " + lib + strf("\n  set { H%d yes }\n} else {\n  set { H%d no }\n}\n", i, i); *w += strf("run { exec { gen -o h%d.out ${H%d} ${L%d none} } produces { h%d.out } }\n", i, i, i, i); }
      else *w += lib + "\n"; }
    if (sub) t += "include { u/Autark }\n";
    for (int i = 0; i < nl; ++i) { if (L[i].cond) continue; t += L[i].scope ? "" : ""; Str &q = t; if (L[i].content) q += strf("if { defined { L%d } run { exec { gen -o r%d.out ${L%d none} ${OV} } produces { r%d.out } } }\nif { ${L%d}\n  run { exec { gen -o k%d.out -i ${L%d} } consumes { ${L%d} } produces { k%d.out } }\n}\n", i, i, i, i, i, i, i, i, i); else q += strf("run { exec { gen -o r%d.out ${L%d none} ${OV} } produces { r%d.out } }\n", i, i, i); }
    if (useGlob) { Str &q = subGlob ? u : t; Str g = subGlob ? "" : ""; Str qt = quotePat ? "\"" : "'";
      if (useFe) { q += "set { TXT\n  in-sources {\n    ..@{autark " + Str(cOpt == 0 ? "-C s" : cOpt == 1 ? "^{--dir= SS{s}}" : "-C ./s/.") + " glob " + (xPat == 0 ? "'zz*' " : xPat == 1 ? "zz.none " : "") + qt + "g*.txt" + qt + (xPat == 2 ? " 'x[0-9].txt'" : "") + "}\n  }\n}\nset { TXA ..@{autark glob SS{s/g*.txt}} }\nforeach { F ${TXT}\n  run { exec { gen -o ^{f- ${F}} ${F} } produces { ^{f- ${F}} } }\n}\nrun { exec { gen -o list.out -a ..${TXA} } consumes { ${TXA} } produces { list.out } }\n"; if (useRedir) q += "run { always shell { \"autark -C\" SS{s} \"glob " + Str(xPat == 1 ? "'q*' " : "") + "'g*.txt'" + (xPat == 3 ? " 'zz?'" : "") + " > names.txt\" } produces { names.txt } }\nrun { exec { gen -o named.out -i names.txt } consumes { names.txt } produces { named.out } }\n"; }
      if (useCc) q += "set { SRC\n  in-sources {\n    ..@{autark -C . glob " + qt + pat + "/c*.c" + qt + "}\n  }\n}\ncc { ${SRC} }\nrun { exec { ld -o all.bin ${CC_OBJS} } consumes { ${CC_OBJS} } produces { all.bin } }\n"; }
    s.wr("Autark", t); if (sub) s.wr("u/Autark", u); s.wr("out.txt", ov); for (auto &kv : txt) s.wr(gdir + "s/" + kv.first, strf("t %s %d\n", kv.first.c_str(), kv.second)); for (auto &kv : src) s.wr(gdir + "s/" + kv.first, strf("int x%d; // %s\n#include \"h.h\"\n", kv.second, kv.first.c_str())); if (useCc) s.wr(gdir + "s/h.h", strf("int h%d;\n", hdr)); };
  std::map<Str, Str> lastKey; Str lastTxt, lastSrc; bool known = false; int steps = r.range(3, 7); s.feat("lookups");
  for (int i = 0; i < nl; ++i) if (r.chance(60)) { Str p = path(pick(r), r.below(2), L[i].names[r.below(L[i].names.size())]); S->hostMkdirs(dirName(p)); S->hostWrite(p, "lib 1"); files.insert(p); }
  for (int k = 0; k < steps && !s.bad(); ++k) {
    if (k) { s.R.opIds.push_back(k); bool skip = s.mk.ops.count(k) > 0; s.tick(); int n = r.chance(25) ? 0 : r.range(1, 3); for (int q = 0; q < n; ++q) { uint64_t sd2 = r.next(); if (skip) continue; Rng o(sd2); switch (o.below(12)) {
        case 0: case 1: case 2: { Lib &l = L[o.below(nl)]; Str p = path(pick(o), o.below(2), l.names[o.below(l.names.size())]); if (s.has(p)) break; S->hostMkdirs(dirName(p)); S->hostWrite(p, strf("lib %d", ++lver)); files.insert(p); s.note("library appears: " + p); break; }
        case 3: case 4: { if (files.empty()) break; auto it = files.begin(); std::advance(it, o.below(files.size())); S->hostUnlink(*it); s.note("library disappears: " + *it); files.erase(it); break; }
        case 5: { if (files.empty()) break; auto it = files.begin(); std::advance(it, o.below(files.size())); S->hostWrite(*it, strf("lib %d", ++lver)); s.note("library changes: " + *it); break; }
        case 6: if (useFe) { newTxt(); s.note("a text file appears"); } break; case 7: if (useCc) { newSrc(); s.note("a source appears"); } break;
        case 8: { auto &m = useFe && (!useCc || o.chance(50)) ? txt : src; if (m.size() < 2) break; auto it = m.begin(); std::advance(it, o.below(m.size())); S->hostUnlink(ROOT + "/" + gdir + "s/" + it->first); s.note("removed " + it->first); m.erase(it); break; }
        case 9: { auto &m = useFe && (!useCc || o.chance(50)) ? txt : src; if (m.empty()) break; auto it = m.begin(); std::advance(it, o.below(m.size())); ++it->second; s.note("edited " + it->first); break; }
        case 10: ov = strf("o%d", (int) o.below(4)); break; default: if (o.chance(50)) { home = o.chance(50) ? "/home/u" : "/home/v"; s.note("HOME=" + home); } else ++hdr; } } }
    s.env = { "PATH=/usr/bin:/bin", "HOME=" + home }; write(); bool fl = false; Strs a = s.base(r.range(1, 3)); a.push_back("-DOV=" + ov); if (r.chance(10)) a.push_back("-V");
    if (!s.run(a)) return; fl = s.faulted; if (fl && !s.ok()) { known = false; continue; } if (!fl && !s.mustPass()) return;
    // what the build has to have produced
    std::map<Str, Str> want; Str txl, srl; Str uc = s.cache + (subGlob ? "/u" : "");
    for (int i = 0; i < nl; ++i) { Str p = find(L[i]), v = p, c = s.cache + (L[i].scope ? "/u" : ""); if (L[i].cond) { want[c + strf("/h%d.out", i)] = genContent(strf("h%d.out", i), {}, p.empty() ? Strs{ "no" } : Strs{ "yes", v }, {}); continue; }
      want[s.cache + strf("/r%d.out", i)] = genContent(strf("r%d.out", i), {}, v.empty() ? Strs{ ov } : Strs{ v, ov }, {}); if (L[i].content && !p.empty()) want[s.cache + strf("/k%d.out", i)] = genContent(strf("k%d.out", i), {}, {}, { { baseName(p), s.rd(p) } }); }
    Strs tl; for (auto &kv : txt) tl.push_back("s/" + kv.first); for (auto &x : tl) txl += x + " "; for (auto &kv : src) srl += kv.first + " ";
    if (useFe) { std::vector<std::pair<Str, Str>> in; for (auto &kv : txt) { want[uc + "/f-" + kv.first] = genContent("f-" + kv.first, {}, { kv.first }, {}); in.push_back({ kv.first, s.rd(ROOT + "/" + gdir + "s/" + kv.first) }); } std::sort(in.begin(), in.end()); want[uc + "/list.out"] = genContent("list.out", {}, {}, in); if (useRedir) { Str nm; for (auto &kv : txt) nm += kv.first + "\n"; want[uc + "/names.txt"] = nm; want[uc + "/named.out"] = genContent("named.out", {}, {}, { { "names.txt", nm } }); } }
    if (useCc) { std::vector<std::pair<Str, Str>> ob; for (auto &kv : src) { Str b = kv.first.substr(0, kv.first.rfind('.')) + ".o"; Str c = objContent(b, "cc", {}, kv.first, s.rd(ROOT + "/" + gdir + "s/" + kv.first), { { "h.h", s.rd(ROOT + "/" + gdir + "s/h.h") } }); want[uc + "/s/" + b] = c; ob.push_back({ b, c }); } std::sort(ob.begin(), ob.end()); want[uc + "/all.bin"] = ldContent("all.bin", {}, ob); }
    for (auto &kv : want) if (s.rd(kv.first) != kv.second) { s.viol(kv.first.find(".o") + 2 == kv.first.size() ? "stale.cc" : "stale.run", strf("build %d: %s is outdated: ", s.b, kv.first.c_str()) + s.rd(kv.first).substr(0, 160) + " instead of " + kv.second.substr(0, 160), kv.first); return; }
    if (known && !fl) { std::map<Str, int> ran; for (size_t e = s.e0; e < S->execs.size(); ++e) { const Str &t = S->execs[e].tag; if (t.compare(0, 4, "gen:") == 0 || t.compare(0, 3, "cc:") == 0 || t.compare(0, 3, "ld:") == 0) ++ran[t.substr(t.find(':') + 1)]; }
      for (auto &kv : ran) { const Str &p = kv.first; bool lst = baseName(p).compare(0, 2, "f-") == 0 ? txl != lastTxt : p.find(".o") + 2 == p.size() || baseName(p) == "all.bin" ? srl != lastSrc : false; if (kv.second > 1) { s.viol("extra.run", strf("build %d built %s %d times", s.b, p.c_str(), kv.second), p); return; } if (!lst && want.count(p) && lastKey.count(p) && lastKey[p] == want[p] && baseName(p).compare(0, 1, "k") && baseName(p) != "named.out") { s.viol("extra.run", strf("build %d built %s again although nothing it uses changed", s.b, p.c_str()), p); return; } } }
    lastKey = want; lastTxt = txl; lastSrc = srl; known = true;
  }
}

// Projects which are copied, moved and replaced together with their caches, and caches which several projects use
void places(Sp &s) {
  Rng &r = s.r; Str AT[] = { "/w/p", "/w/p2", "/w/x/y" }, SC = "/w/shared"; switch (r.below(5)) { case 0: AT[1] = "/w/shared2"; break; case 1: SC = "/w/p-cache"; break; case 2: SC = "/w/x/y2/c"; break; } int np = r.range(2, 4);
  struct Pj { bool there = false; int in = 1, in2 = 1, src = 1, hdr = 1, tm = 1, k = 1, w = 1, sub = 1, items = 2; }; Pj pj[4]; bool shared = r.chance(40); bool sub = r.chance(60), chk = r.chance(60), loop = r.chance(50), cond = r.chance(40), plain = !shared && r.chance(70); s.feat("copied projects and shared caches");
  auto put = [&](int i) { Pj &p = pj[i]; Str d = AT[i] + "/"; auto in = [&](const Str &f, const char *up) { return plain ? up + f : "S{" + f + "}"; };
    Str t; if (chk) { t += "check { k.sh }\n"; s.wr(d + ".autark/k.sh", strf("#!/bin/sh\nset -e\nautark set K=%d\n", p.k), 0755); } t += strf("set { VAL w%d }\n", p.w);
    t += "cc { m.c objects { OB } }\nrun { exec { ld -o prog ${OB} } consumes { ${OB} } produces { prog } }\n" + Str("run { exec { gen -o a.out -i ") + in("in.txt", "../") + " } consumes { in.txt } produces { a.out } }\nconfigure { c.h.in }\n";
    Str chain = "run { exec { gen -o b.out -i a.out ${VAL} } consumes { a.out } produces { b.out } }\n"; t += cond ? "if { ${VAL}\n" + chain + "}\n" : chain; if (loop) { t += "foreach { I set { _"; for (int k = 0; k < p.items; ++k) t += strf(" f%d", k); t += " } run { exec { gen -o ^{${I} .out} -i a.out ${I} } consumes { a.out } produces { ^{${I} .out} } } }\n"; }
    if (sub) { t += "include { sub/Autark }\n"; s.wr(d + "sub/Autark", strf("# %d\n", p.sub > 5) + "run { exec { gen -o s.out -i " + (plain ? Str("../../sub/in2.txt") : Str("SS{in2.txt}")) + " -i C{a.out} } consumes { in2.txt C{a.out} } produces { s.out } }\ncc { n.c objects { ON } }\n"); s.wr(d + "sub/in2.txt", strf("in2 %d\n", p.in2)); s.wr(d + "sub/n.c", strf("int n%d;\n", p.sub)); }
    t += "install { inst c.h a.out }\n"; s.wr(d + "Autark", t); s.wr(d + "in.txt", strf("in %d\n", p.in)); s.wr(d + "m.c", strf("int m%d;\n#include \"m.h\"\n", p.src)); s.wr(d + "m.h", strf("int h%d;\n", p.hdr)); s.wr(d + "c.h.in", strf("t%d @VAL@ @K@\n", p.tm)); };
  std::function<InodeP(const InodeP&, bool, Inode*)> dup = [&](const InodeP &n, bool keep, Inode *up) -> InodeP { auto c = std::make_shared<Inode>(*n); c->ino = S->nextIno++; c->parent = up; c->nlink = 1; if (!keep && n->type != I_DIR) c->mtime = S->now; if (n->type == I_DIR) for (auto &e : c->ents) e.second = dup(e.second, keep, c.get()); return c; };
  auto parentOf = [&](const Str &p) { S->hostMkdirs(dirName(p)); return S->hostGet(dirName(p)); };
  auto drop = [&](const Str &p) { auto d = S->hostGet(dirName(p)); if (d) d->ents.erase(baseName(p)); };
  auto copy = [&](const Str &a, const Str &b, bool keep) { auto n = S->hostGet(a, false); if (!n) return; auto d = parentOf(b); d->ents.erase(baseName(b)); auto c = dup(n, keep, d.get()); d->ents[baseName(b)] = c; };
  auto tree = [&](const Str &d) { std::map<Str, Str> m; std::function<void(const Str&, const InodeP&)> go = [&](const Str &p, const InodeP &n) { m[p] = n->type == I_DIR ? Str("dir") : strf("%d %o %lld ", (int) n->type, n->mode, (long long) n->mtime) + n->data; if (n->type == I_DIR) for (auto &e : n->ents) go(p + "/" + e.first, e.second); }; auto n = S->hostGet(d, false); if (n) go(d, n); return m; };
  auto cacheOf = [&](int i, bool sh) { return sh ? SC : AT[i] + "/autark-cache"; };
  np = std::min(np, 3); pj[0].there = true; put(0); bool inst = r.chance(40); int at = 0;
  for (int b = 0, n = r.range(2, 8); b < n && !s.bad(); ++b) {
    std::vector<int> th; for (int i = 0; i < np; ++i) if (pj[i].there) th.push_back(i); if (b == 0 || r.chance(50) || !pj[at].there) at = th[r.below(th.size())]; Pj &p = pj[at]; Str d = Str(AT[at]) + "/"; bool sh = shared && r.chance(70); s.cache = cacheOf(at, sh); Strs a = s.base(r.range(1, 4)); if (sh) { Str up; for (size_t q = 1; q < AT[at].size(); ++q) if (AT[at][q] == '/') up += "../"; a.push_back(r.chance(50) ? "-H" + SC : "-H" + up + SC.substr(3)); }; bool ins = inst && r.chance(60); if (ins) a.push_back("-R/w/inst"); bool twice = r.chance(30);
    std::map<Str, std::map<Str, Str>> old; for (int i = 0; i < np; ++i) if (i != at && pj[i].there) old[AT[i]] = tree(AT[i]); if (!sh) old[SC] = tree(SC);
    if (!s.run(a, AT[at])) return; bool flt = s.faulted, good = s.ok(); if (!flt && !s.mustPass()) return;
    for (auto &kv : old) if (tree(kv.first) != kv.second) { s.viol("outside", strf("build %d in %s changed %s", s.b, AT[at].c_str(), kv.first.c_str()), kv.first); return; }
    auto check = [&] { std::map<Str, Str> w; Str c = s.cache + "/"; auto rd = [&](const Str &f) { return s.rd(d + f); }; w["m.o"] = objContent("m.o", "cc", {}, "m.c", rd("m.c"), { { "m.h", rd("m.h") } }); w["prog"] = ldContent("prog", {}, { { "m.o", w["m.o"] } }); w["a.out"] = genContent("a.out", {}, {}, { { "in.txt", rd("in.txt") } }); Str val = strf("w%d", p.w); w["b.out"] = genContent("b.out", {}, { val }, { { "a.out", w["a.out"] } }); w["c.h"] = strf("t%d ", p.tm) + val + " " + (chk ? strf("%d", p.k) : Str()) + "\n"; if (loop) for (int k = 0; k < p.items; ++k) { Str it = strf("f%d", k); w[it + ".out"] = genContent(it + ".out", {}, { it }, { { "a.out", w["a.out"] } }); }
    if (sub) { w["sub/s.out"] = genContent("s.out", {}, {}, { { "in2.txt", rd("sub/in2.txt") }, { "a.out", w["a.out"] } }); w["sub/n.o"] = objContent("n.o", "cc", {}, "n.c", rd("sub/n.c"), {}); }
    for (auto &kv : w) if (s.rd(c + kv.first) != kv.second) { s.viol(kv.first.size() > 2 && kv.first.substr(kv.first.size() - 2) == ".o" ? "stale.cc" : kv.first == "c.h" ? "stale.conf" : "stale.run", strf("build %d in %s: %s is '", s.b, AT[at].c_str(), kv.first.c_str()) + s.rd(c + kv.first).substr(0, 200) + "' instead of '" + kv.second.substr(0, 200) + "'", kv.first); return; }
    if (ins) for (const char *f : { "c.h", "a.out" }) if (s.rd(Str("/w/inst/inst/") + f) != w[f]) { s.viol("stale.install", strf("build %d in %s: installed %s is '", s.b, AT[at].c_str(), f) + s.rd(Str("/w/inst/inst/") + f).substr(0, 200) + "'", f); return; } };
    if (good) check(); if (s.bad()) return;
    if (twice) { if (!s.run(a, AT[at])) return; if (s.faulted) flt = true; else if (!s.mustPass()) return; if (s.ok()) check(); if (s.bad() || (!flt && !s.idle("project built before at the same place"))) return; }
    s.R.opIds.push_back(b + 1); uint64_t sd = r.next(); s.tick(); if (s.mk.ops.count(b + 1)) continue; Rng o(sd);
    for (int q = o.range(1, 3); q > 0; --q) { int i = o.below(np), j = o.below(np); switch (o.below(10)) {
      case 0: case 1: case 2: if (i != j && pj[i].there) { bool keep = o.chance(70); copy(AT[i], AT[j], keep); pj[j] = pj[i]; s.note(strf("%s copied to %s%s", AT[i].c_str(), AT[j].c_str(), keep ? "" : " with new times")); } break;
      case 3: if (i != j && pj[i].there) { copy(AT[i], AT[j], true); drop(AT[i]); pj[j] = pj[i]; pj[i].there = false; s.note(AT[i] + " moved to " + AT[j]); } break;
      case 4: if (i != j && pj[i].there && pj[j].there && S->hostGet(cacheOf(i, false))) { copy(cacheOf(i, false), cacheOf(j, false), true); s.note("cache of " + AT[i] + " copied to " + AT[j]); } break;
      case 5: if (shared && pj[i].there) { Str x = cacheOf(i, false), y = SC; if (o.chance(50)) std::swap(x, y); if (S->hostGet(x)) { copy(x, y, true); s.note(x + " copied to " + y); } } break;
      default: if (pj[i].there) { Pj &p2 = pj[i]; int *f[] = { &p2.in, &p2.in2, &p2.src, &p2.hdr, &p2.tm, &p2.k, &p2.w, &p2.sub, &p2.items }; int x = o.below(9); int &v = *f[x]; v = x == 8 ? o.range(1, 4) : o.range(1, 4) == 1 ? 1 : v + 1; put(i); s.note(strf("edit %d in %s", x, AT[i].c_str())); } } s.tick(); } }
}

// Loops whose rules have program outputs, joins, lists and definitions made of the loop variable
void loopOutputs(Sp &s) {
  Rng &r = s.r; int nf = r.range(1, 7), inp = 1, cv = 1; bool opt = r.chance(50); Str od = "o1"; std::vector<int> forms; for (int i = 0; i < nf; ++i) forms.push_back(r.below(11)); bool sub = r.chance(30), lst = r.chance(50), useIn = r.chance(60); Strs items; int ni = 0; auto add = [&] { items.push_back(strf("i%d", ++ni)); }; for (int i = r.range(1, 4); i > 0; --i) add();
  s.feat("loops with outputs"); Str dir = sub ? "u/" : "", c = s.cache + (sub ? "/u" : ""), last;
  auto words = [&](const Str &it, Str *text) { Strs w; Str t; for (size_t q = 0; q < forms.size(); ++q) { int k = (int) q; switch (forms[q]) {
      case 0: t += strf(" @{say -n q%d ${I}}", k); w.push_back(it); break;
      case 1: t += strf(" @{say -n q%d ^{a- ${I} -b} tail}", k); w.push_back("a-" + it + "-b tail"); break;
      case 2: t += strf(" set { _ ..@{say -n q%d one ${I} ${CV}} }", k); w.push_back("one"); w.push_back(it); w.push_back(strf("c%d", cv)); break;
      case 3: t += " ^{x ${I} y ${CV}}"; w.push_back("x" + it + "y" + strf("c%d", cv)); break;
      case 4: t += strf(" @{say -n q%d ${CV}}", k); w.push_back(strf("c%d", cv)); break;
      case 5: t += strf(" ^{p @{say -n q%d ${I}}}", k); w.push_back("p" + it); break;
      case 6: t += strf(" ..set { _ l%d ${I} @{say -n q%d z ${I}} }", k, k); w.push_back(strf("l%d", k)); w.push_back(it); w.push_back("z " + it); break;
      case 7: t += " ${UNDEF ${I}}"; w.push_back(it); break;
      case 8: t += strf(" @{say -n q%d @{say -n r%d ${I}}}", k, k); w.push_back(it); break;
      case 9: t += strf(" @@{say -n q%d ${I} ${CV}}", k); w.push_back(it + strf(" c%d", cv)); break;
      default: t += " %{^{${I} .x}}"; w.push_back(it); break; } } if (opt) { t += " ${OD dflt}"; w.push_back(od.empty() ? Str("dflt") : od); } if (text) *text = t; return w; };
  for (int b = 0, n = r.range(2, 6); b < n && !s.bad(); ++b) {
    Str t, w; words("", &w); t += strf("set { CV c%d }\n", cv); if (sub) { s.wr("Autark", t + "include { u/Autark }\n"); t.clear(); } Str l = "set { _"; for (auto &x : items) l += " " + x; l += " }"; if (lst) { t += "set { LS"; for (auto &x : items) t += " " + x; if (items.size() == 1) t += " ..${NONE}"; t += " }\n"; l = "${LS}"; }
    t += "foreach { I " + l + "\n  run { exec { gen -o ^{${I} .out}" + w + (useIn ? " -i SS{in.txt} } consumes { in.txt }" : " }") + " produces { ^{${I} .out} } } }\n"; s.wr(dir + "Autark", t); s.wr(dir + "in.txt", strf("in %d\n", inp)); Strs a = s.base(r.range(1, 3)); if (opt && !od.empty()) a.push_back("-DOD=" + od);
    if (!s.run(a) || !s.mustPass()) return; Str now = t + od + strf(" %d %d", inp, cv);
    for (auto &it : items) { std::vector<std::pair<Str, Str>> in; if (useIn) in.push_back({ "in.txt", strf("in %d\n", inp) }); Str e = genContent(it + ".out", {}, words(it, nullptr), in), g = s.rd(c + "/" + it + ".out"); if (g != e) { s.viol("stale.foreach", strf("build %d: %s.out is '", s.b, it.c_str()) + g.substr(0, 300) + "' instead of '" + e.substr(0, 300) + "'", it + ".out"); return; } }
    if (now == last && !s.idle("loop")) return; last = now; s.R.opIds.push_back(b + 1); uint64_t sd = r.next(); s.tick(); if (s.mk.ops.count(b + 1)) continue; Rng o(sd); for (int q = o.below(3); q > 0; --q) switch (o.below(6)) { case 0: add(); break; case 1: if (items.size() > 1) items.erase(items.begin() + o.below(items.size())); break; case 2: std::swap(items[0], items[o.below(items.size())]); break; case 3: ++inp; break; case 4: ++cv; break; default: od = o.chance(20) ? "" : strf("o%d", (int) o.below(4)); }
  }
}
