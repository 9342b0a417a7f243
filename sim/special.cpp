// Directed scenario families: each is generated from a seed like the ordinary ones.
#include "special.h"
void dependentProjects(Sp &s);
void lookups(Sp &s);
void places(Sp &s);
void loopOutputs(Sp &s);

// ---------------------------------------------------------------- cyclic dependencies

struct Node { int kind, unit; Str out, src; std::vector<int> ins; Strs files; bool ring = false; int wrap = 0; };   // kind 0 run, 1 shell, 2 cc, 3 cc of a generated source, 4 link
static void cycles(Sp &s) {
  Rng &r = s.r; int n = r.chance(15) ? 1 : r.range(2, 6), nu = r.range(1, 3); std::vector<Node> v; static const char *ud[] = { "", "u0/", "u1/x/" };
  bool oneUnit = r.chance(50);
  for (int i = 0; i < n; ++i) { Node d; d.ring = true; d.unit = oneUnit ? 0 : r.below(nu); d.kind = r.chance(55) ? (r.chance(25) ? 1 : 0) : r.chance(50) ? 2 : 3; if (n == 1 && d.kind == 3) d.kind = 0; d.ins = { (i + n - 1) % n }; d.wrap = r.chance(25) ? 1 + r.below(3) : 0; v.push_back(d); }
  for (int i = 0; i < n; ++i) { Node &d = v[i]; Node &p = v[(i + n - 1) % n]; if (d.kind == 3 && (p.kind > 1 || p.unit != d.unit)) d.kind = 2; }
  for (int i = 0; i < n; ++i) { Node &d = v[i]; Node &nx = v[(i + 1) % n]; if (d.kind == 2) { d.src = strf("s%d.c", i); d.out = strf("s%d.o", i); } else if (d.kind == 3) d.out = strf("r%d.o", (i + n - 1) % n); else d.out = strf("r%d.", i) + (nx.kind == 3 ? "c" : "out"); }
  // rules around the cycle
  int ex = r.range(0, 4); for (int k = 0; k < ex; ++k) { if (s.mk.rules.count(k)) { r.next(); r.next(); r.next(); continue; } Node d; int how = r.below(3); d.unit = r.below(nu); d.kind = 0; d.out = strf("e%d.out", k); int t = r.below(n); d.files = { strf("ef%d.txt", k) };
    if (how == 0) { d.ins = { t }; v.push_back(d); } else if (how == 1) { v.push_back(d); v[t].ins.push_back((int) v.size() - 1); } else v.push_back(d); }
  s.R.nRules = ex;
  int cut = r.below(n); while (v[cut].kind == 3) cut = (cut + 1) % n; std::vector<int> order(v.size()); for (size_t i = 0; i < v.size(); ++i) order[i] = i; for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]); bool incFirst = r.chance(50);
  auto outAbs = [&](const Node &d) { return s.cache + "/" + ud[d.unit] + d.out; };
  auto ref = [&](const Node &d, const Node &to) -> Str { if (d.unit == to.unit && (d.out.size() & 1)) return d.out; return "C{" + Str(ud[d.unit]) + d.out + "}"; };
  auto text = [&](int u, bool cyc, int ver) {
    Str t = "# v\n"; Str inc; if (u == 0) for (int k = 1; k < nu; ++k) inc += strf("include { %sAutark }\n", ud[k]); if (incFirst) t += inc;
    for (int i : order) { Node &d = v[i]; if (d.unit != u) continue; Str ins, cons; bool gs = d.kind == 3;
      for (int j : d.ins) { if (!cyc && d.ring && v[j].ring && i == cut) { if (gs) continue; ins += " -i S{cut.txt}"; cons += " S{cut.txt}"; continue; } if (gs && v[j].ring) continue; Str f = ref(v[j], d); ins += " -i " + f; cons += " " + f; }
      for (auto &f : d.files) { ins += " -i S{" + f + "}"; cons += " S{" + f + "}"; } Str rule;
      if (d.kind <= 1) rule = Str("run { ") + (d.kind ? "shell" : "exec") + " { gen -o " + d.out + ins + strf(" v%d }", ver) + (cons.empty() ? "" : " consumes {" + cons + " }") + " produces { " + d.out + " } }\n";
      else { Str src = d.kind == 2 ? d.src : !cyc && i == cut ? Str("S{cut.c}") : "CC{" + v[d.ins[0]].out + "}"; rule = strf("cc { set { _ %s } set { _ -v%d }", src.c_str(), ver) + (cons.empty() ? "" : " consumes {" + cons + " }") + strf(" objects { OB%d } }\n", i); }
      if (d.wrap == 1) rule = strf("if { ${T%d yes}\n", i) + rule + "}\n"; else if (d.wrap == 2 && d.kind <= 1) rule = strf("macro { M%d ", i) + rule + strf("}\ncall { M%d }\n", i); else if (d.wrap == 3 && d.kind <= 1) rule = strf("foreach { W%d set { _ one }\n", i) + rule + "}\n";
      t += rule; }
    if (!incFirst) t += inc; return t; };
  auto put = [&](bool cyc, int ver) { for (int u = 0; u < nu; ++u) s.wr(Str(ud[u]) + "Autark", text(u, cyc, ver)); s.note(cyc ? "rules form a cycle" : "rules form no cycle"); };
  s.wr("cut.txt", "cut\n"); s.wr("cut.c", "int cut;\n"); for (auto &d : v) { for (auto &f : d.files) s.wr(f, f + "\n"); if (!d.src.empty()) s.wr(ud[d.unit] + d.src, "int x;\n"); }
  std::set<Str> ring; for (auto &d : v) if (d.ring) ring.insert(outAbs(d));
  bool cutGs = v[cut].kind == 3;
  auto good = [&](int ver) { if (!s.run(s.base(r.range(1, 4))) || !s.mustPass()) return false;
    for (size_t i = 0; i < v.size(); ++i) { Node &d = v[i]; if (cutGs && (int) i == cut) continue; Str d0 = s.rd(outAbs(d)); if (d0 == "(missing)") { s.viol("stale.run", outAbs(d) + " is missing", outAbs(d)); return false; } if (d.kind > 1) continue;
      std::vector<std::pair<Str, Str>> in; for (int j : d.ins) { if (d.ring && v[j].ring && (int) i == cut) in.push_back({ "cut.txt", s.rd(ROOT + "/cut.txt") }); else in.push_back({ v[j].out, s.rd(outAbs(v[j])) }); } for (auto &f : d.files) in.push_back({ f, s.rd(ROOT + "/" + f) });
      if (d0 != genContent(d.out, {}, { strf("v%d", ver) }, in)) { s.viol("stale.run", outAbs(d) + " has outdated content", outAbs(d)); return false; } }
    return true; };
  auto cyclic = [&] { if (!s.run(s.base(r.range(1, 4)))) return false; s.feat("cyclic builds"); if (s.ok()) { s.viol("cycle", strf("build %d succeeded although rules depend on each other in a cycle", s.b)); return false; }
    for (size_t i = s.e0; i < S->execs.size(); ++i) { auto &x = S->execs[i]; size_t c = x.tag.find(':'); if (c != Str::npos && ring.count(x.tag.substr(c + 1))) { s.viol("cycle", strf("build %d executed %s, a command of the cycle", s.b, x.tag.c_str())); return false; } } return true; };
  int ver = 0; bool pre = r.chance(65);
  if (pre) { put(false, ver); if (!good(ver) || s.bad()) return; if (r.chance(50)) ++ver; }
  put(true, ver); if (!cyclic() || s.bad()) return; if (r.chance(40)) { if (!cyclic() || s.bad()) return; } if (r.chance(50)) ++ver; if (r.chance(70)) { put(false, ver); if (!good(ver)) return; if (r.chance(40)) { if (!s.bad() && s.run(s.base(2)) && s.mustPass()) s.idle("after a repaired cycle"); } }
}

// ---------------------------------------------------------------- recursion of scripts, macros and variables

static void recursion(Sp &s) {
  Rng &r = s.r; int kind = r.below(3); Str rule = "run { exec { gen -o a.out w } produces { a.out } }\n"; bool pre = r.chance(40);
  if (pre) { s.wr("Autark", rule); if (!s.run(s.base(1)) || !s.mustPass() || s.bad()) return; }
  if (kind == 0) { // includes
    int n = r.range(1, 4); static const char *dirs[] = { "", "i1/", "i2/y/", "" }; std::vector<Str> f; for (int i = 0; i < n; ++i) f.push_back(i == 0 ? "Autark" : Str(dirs[i]) + strf("x%d", i));
    for (int i = 0; i < n; ++i) { const Str &to = f[(i + 1) % n]; Str d = dirName(f[i]), up; if (!d.empty()) { up = "../"; for (char c : d) if (c == '/') up += "../"; } Str inc = r.chance(30) ? "/w/p/" + to : up + to; Str t; if (r.chance(50)) t += strf("run { exec { gen -o b%d.out w } produces { b%d.out } }\n", i, i); t += r.chance(25) ? "if { yes\ninclude { " + inc + " }\n}\n" : "include { " + inc + " }\n"; if (r.chance(30)) t += "include { " + inc + " }\n"; if (r.chance(30)) t += strf("set { A%d x }\n", i); s.wr(f[i], t); }
    s.note(strf("%d scripts include each other", n)); s.feat("recursive includes");
  } else if (kind == 1) { // macros
    int n = r.range(1, 4); Str t = pre ? rule : ""; for (int i = 0; i < n; ++i) { Str body; if (r.chance(40)) body += "set { Q & }\n"; if (r.chance(30)) body += "run { exec { gen -o ^{m & .out} & } produces { ^{m & .out} } }\n"; Str arg = r.chance(50) ? "z" : r.chance(50) ? "&" : "^{ x & }"; body += strf("call { M%d ", (i + 1) % n) + arg + " }\n"; if (r.chance(30)) body += strf("call { M%d q }\n", (i + 1) % n); t += strf("macro { M%d\n", i) + (r.chance(20) ? "if { yes\n" + body + "}\n" : body) + "}\n"; } t += "call { M0 a }\n"; s.wr("Autark", t);
    s.note(strf("%d macros call each other", n)); s.feat("recursive macros");
  } else { // a chain of includes and macros ends up in itself
    s.wr("Autark", "macro { M\ninclude { sub }\n}\ncall { M }\n"); s.wr("sub", r.chance(50) ? "include { Autark }\n" : "macro { N\ncall { M }\n}\ncall { N }\ncall { M }\n"); s.note("a macro includes a script which calls it"); s.feat("recursive includes");
  }
  if (!s.run(s.base(r.range(1, 3)))) return; if (s.ok()) { s.viol("cycle", strf("build %d succeeded although it can never end", s.b)); return; } if (s.ran("gen:")) { s.viol("cycle", strf("build %d executed commands of endlessly recursive scripts", s.b)); return; }
  if (s.bad()) return; s.wr("Autark", rule); if (!s.run(s.base(1)) || !s.mustPass()) return; if (s.rd(s.cache + "/a.out") != genContent("a.out", {}, { "w" }, {})) s.viol("stale.run", "a.out is outdated after recursion was removed", "a.out");
}
static void selfVars(Sp &s) {
  Rng &r = s.r; int n = r.range(1, 5); Strs nm; for (int i = 0; i < n; ++i) nm.push_back(strf("V%d", i)); auto one = [&](int d, auto &self) -> Str { const Str &x = nm[r.below(n)]; switch (r.below(d > 2 ? 3 : 6)) { case 0: return strf("w%d", (int) r.below(5)); case 1: return "${" + x + "}"; case 2: return "..${" + x + "}"; case 3: return "^{" + self(d + 1, self) + " " + self(d + 1, self) + "}"; case 4: return "${" + x + " dflt}"; default: return "${" + x + "}"; } };
  auto defs = [&](int k) { Str t; for (int i = 0; i < k; ++i) { const Str &x = nm[r.below(n)]; int w = r.below(10); Str name = w == 0 ? "root { " + x + " }" : w == 1 ? "parent { " + x + " }" : x; t += Str(w == 2 ? "env" : "set") + " { " + name; int m = r.range(1, 3); for (int j = 0; j < m; ++j) t += " " + one(0, one); t += " }\n"; if (r.chance(20)) { t = t + strf("if { ${%s}\n", nm[r.below(n)].c_str()) + strf("set { %s %s }\n", nm[r.below(n)].c_str(), one(0, one).c_str()) + "}\n"; } } return t; };
  bool sub = r.chance(40); Str t = defs(r.range(1, 6)); if (sub) t += "include { u0/Autark }\n"; t += "run { exec { gen -o a.out"; for (auto &x : nm) t += " ${" + x + "}"; for (auto &x : nm) if (r.chance(40)) t += " ..${" + x + "}"; t += " } produces { a.out } }\n" + (r.chance(30) ? defs(2) : Str());
  if (r.chance(30)) t += "foreach { L " + one(0, one) + "\nrun { exec { gen -o ^{b ${L} .out} ${L} } produces { ^{b ${L} .out} } }\n}\n";
  s.wr("Autark", t); if (sub) s.wr("u0/Autark", defs(r.range(1, 4)) + "run { exec { gen -o c.out ${V0} } produces { c.out } }\n"); s.note("variables refer to themselves"); s.feat("self-referring variables");
  if (!s.run(s.base(1)) || !s.mustPass()) return; if (!s.has(s.cache + "/a.out")) { s.viol("stale.run", "a.out is missing", "a.out"); return; } if (s.bad()) return;
  Str a = s.rd(s.cache + "/a.out"); if (!s.run(s.base(1)) || !s.mustPass()) return; if (s.rd(s.cache + "/a.out") != a) s.viol("stale.run", "a.out changed although nothing else did", "a.out");
}
// One macro called many times, or with many arguments of many shapes: the same as its text with the arguments in place.
static void macros(Sp &s) {
  Rng &r = s.r; int na = r.chance(30) ? r.range(20, 63) : r.range(1, 8), nc = r.chance(10) ? r.range(60, 180) : r.range(1, 8), nr = r.range(1, 3); if (na > 15 && nc > 20) nc = 20; s.feat("macros of many arguments and calls"); s.note(strf("a macro of %d arguments and %d rules called %d times", na, nr, nc));
  std::vector<std::vector<int>> use(nr); Str body, V = "vv"; for (int k = 0; k < nr; ++k) { int m = r.range(1, na + 2), cur = 0; if (k == 0) cur = 0; Str w; bool seq = k == 0 && r.chance(40); for (int i = 0; i < m; ++i) { int a = seq ? i % na : (int) r.below(na); use[k].push_back(a); if (seq && a == cur && i < na) { w += r.chance(50) ? " &" : " &{}"; } else { w += strf(" &{%d}", a + 1); } cur = a + 1; } if (seq && m > 0) { w = ""; use[k].clear(); for (int i = 0; i < std::min(m, na); ++i) { use[k].push_back(i); w += r.chance(50) ? " &" : " &{}"; } body = strf("run {\n  exec { gen") + w + strf(" -o ^{p%d_ &{1}} -i S{in.txt} }\n  consumes { S{in.txt} }\n  produces { ^{p%d_ &{1}} }\n}\n", k, k) + body; } else body += strf("run {\n  exec { gen -o ^{p%d_ &{1}} -i S{in.txt}", k) + w + strf(" }\n  consumes { S{in.txt} }\n  produces { ^{p%d_ &{1}} }\n}\n", k); }
  struct A { Str t; Strs v; }; auto arg = [&](int i) { Str x = strf("a%d", i) + (r.chance(30) ? strf("x%d", (int) r.below(1000)) : Str()); switch (r.below(9)) { case 0: return A{ "^{" + x + " - ${VV}}", { x + "-vv" } }; case 1: return A{ "${VV}", { "vv" } }; case 2: return A{ "^{p ^{" + x + " ^{q ${VV}}}}", { "p" + x + "qvv" } }; case 3: return A{ "if { ${VV} " + x + " }", { x } }; case 4: return A{ "'" + x + " y'", { x + " y" } }; case 5: return A{ "..${LV}", { "l1", "l2" } }; case 6: return A{ "^{ if { !${VV} no } else { " + x + " } }", { x } }; case 7: return A{ "^{${UNDEFV " + x + "} z}", { x + "z" } }; default: return A{ x, { x } }; } };
  std::vector<std::vector<A>> calls; for (int c = 0; c < nc; ++c) { std::vector<A> v; for (int i = 0; i < na; ++i) v.push_back(i == 0 ? A{ strf("n%d.out", c), { strf("n%d.out", c) } } : arg(i)); calls.push_back(v); }
  auto script = [&] { Str t = "set { VV vv }\nset { LV l1 l2 }\nmacro { M\n" + body + "}\n"; for (auto &c : calls) { t += "call { M"; for (auto &a : c) t += (r.chance(20) ? "\n  " : " ") + a.t; t += " }\n"; } return t; };
  s.wr("in.txt", "1\n"); s.wr("Autark", script()); std::map<Str, Str> prev; (void) V;
  for (int ver = 0; ver < 2; ++ver) { if (!s.run(s.base(r.range(1, 3))) || !s.mustPass()) return; long cnt = 0;
    for (auto &c : calls) for (int k = 0; k < nr; ++k) { Strs w; for (int a : use[k]) for (auto &x : c[a].v) w.push_back(x); Str o = strf("p%d_", k) + c[0].v[0]; Str want = genContent(o, {}, w, { { "in.txt", s.rd(ROOT + "/in.txt") } }); if (s.rd(s.cache + "/" + o) != want) { s.viol("stale.run", o + " is '" + s.rd(s.cache + "/" + o).substr(0, 200) + "' instead of '" + want.substr(0, 200) + "'", o); return; } ++cnt; }
    if ((long) s.ran("gen:") != cnt) { s.viol("extra.run", strf("build %d executed %d commands instead of %ld", s.b, (int) s.ran("gen:"), cnt)); return; } if (s.bad()) return; if (r.chance(60)) { if (!s.run(s.base(2)) || !s.mustPass() || !s.idle("project of macros")) return; }
    s.tick(); if (r.chance(50)) s.wr("in.txt", "2\n"); else { for (int i = 1; i < na; ++i) calls[r.below(nc)][i] = arg(i + 100); s.wr("Autark", script() + "# 2\n"); } }
}
// The place of the text of a macro: rules, messages, variables which get other values and parts of lists between calls
static void macroOrder(Sp &s) {
  Rng &r = s.r; struct It { int k = 0; Str a, b; std::vector<It> sub; int m = -1; Strs args; };   // 0 rule, 1 message, 2 let, 3 call, 4 list with a call, 5 condition, 6 script
  int nm = r.range(1, 4), un = 0; std::vector<std::vector<It>> mac(nm); s.feat("places of macro calls"); int units = 0;
  // in a macro: &{1} is a name nobody else uses, &{2} a value
  auto uniq = [&](bool in) { return in ? strf("^{&{1} _%d}", un++) : strf("q%d", un++); };
  std::function<std::vector<It>(int, int, int)> gen = [&](int lvl, int depth, int n) { std::vector<It> v; for (int i = 0; i < n; ++i) { It x; bool in = lvl >= 0; int k = r.below(10); if (k < 3) { x.k = 0; x.a = uniq(in); x.b = in && r.chance(40) ? "&{2}" : "${LV}"; } else if (k < 5) { x.k = 1; x.a = uniq(in); x.b = in && r.chance(40) ? "&{2}" : "${LV}"; } else if (k < 6) { x.k = 2; x.b = in && r.chance(50) ? Str("&{2}") : strf("v%d", (int) r.below(5)); } else if (k < 8 && lvl + 1 < nm) { x.k = 3; x.m = r.range(lvl + 1, nm - 1); x.args = { uniq(in), in && r.chance(40) ? Str("&{2}") : strf("a%d", (int) r.below(9)) }; } else if (k == 8) { x.k = 4; x.a = uniq(in); x.b = in ? Str("&{2}") : strf("b%d", (int) r.below(9)); } else if (depth < 2) { x.k = !in && r.chance(40) ? 6 : 5; if (x.k == 6) ++units; x.sub = gen(lvl, depth + 1, r.range(1, 3)); if (x.k == 6) { It l; l.k = 2; l.b = "u"; x.sub.insert(x.sub.begin(), l); } } else continue; v.push_back(x); } return v; };
  for (int i = nm - 1; i >= 0; --i) mac[i] = gen(i, 0, r.range(1, 4)); std::vector<It> top = gen(-1, 0, r.range(2, 7)); { It l; l.k = 2; l.b = "v0"; top.insert(top.begin(), l); }
  int un2 = 0; Str macros, cur; std::function<Str(const std::vector<It>&)> text = [&](const std::vector<It> &v) { Str t; for (auto &x : v) switch (x.k) { case 0: t += "run { exec { gen -o " + x.a + " " + x.b + " -i S{/w/p/in.txt} } consumes { S{/w/p/in.txt} } produces { " + x.a + " } }\n"; break; case 1: t += "echo { ^{'<' " + x.a + " = " + x.b + " '>'} }\n"; break; case 2: t += "let { LV " + x.b + " }\n"; break; case 3: t += strf("call { M%d ", x.m) + x.args[0] + " " + x.args[1] + " }\n"; break;
    case 4: t += "run { exec { gen -o " + x.a + " p0 call { ML " + x.b + " w2 } p3 call { ML x4 " + x.b + " } -i S{/w/p/in.txt} } consumes { S{/w/p/in.txt} } produces { " + x.a + " } }\n"; break; case 5: t += "if { ${LV}\n" + text(x.sub) + "}\n"; break; default: { Str d = strf("z%d", un2++), old = cur; cur += d + "/"; s.wr(cur + "Autark", macros + text(x.sub)); cur = old; t += "include { " + d + "/Autark }\n"; } } return t; };
  macros = "macro { ML &{1} &{2} }\n"; for (int i = nm - 1; i >= 0; --i) { Str b = text(mac[i]); macros += strf("macro { M%d\n", i) + b + "}\n"; } s.wr("in.txt", "1\n"); s.wr("Autark", macros + text(top));
  struct Ev { Str name; Strs w; Str dir; }; std::vector<Ev> runs; Strs echos; int un3 = 0;
  auto sub = [](Str t, const Strs &a) { for (int i = 0; i < 2 && !a.empty(); ++i) { Str k = strf("&{%d}", i + 1); size_t p; while ((p = t.find(k)) != Str::npos) t.replace(p, k.size(), a[i]); } if (t.compare(0, 2, "^{") == 0) { Str o; for (char c : t) if (c != '^' && c != '{' && c != '}' && c != ' ') o += c; t = o; } return t; };
  std::function<void(const std::vector<It>&, const Strs&, Str&, const Str&)> eval = [&](const std::vector<It> &v, const Strs &a, Str &lv, const Str &dir) { for (auto &x : v) { Str n = sub(x.a, a), b = x.b == "${LV}" ? lv : sub(x.b, a); switch (x.k) { case 0: runs.push_back({ n, { b }, dir }); break; case 1: echos.push_back("<" + n + "=" + b + ">"); break; case 2: lv = b; break; case 3: eval(mac[x.m], { sub(x.args[0], a), sub(x.args[1], a) }, lv, dir); break; case 4: runs.push_back({ n, { "p0", b, "w2", "p3", "x4", b }, dir }); break; case 5: eval(x.sub, a, lv, dir); break; default: { Str l = lv; eval(x.sub, a, l, dir + strf("/z%d", un3++)); } } } };
  Str lv; eval(top, {}, lv, s.cache); s.note(strf("%d macros, %d rules, %d messages", nm, (int) runs.size(), (int) echos.size())); if (runs.size() > 150) return;
  for (int b = 0; b < 3; ++b) { if (!s.run(s.base(r.range(1, 3))) || !s.mustPass()) return; size_t at = 0; for (auto &e : echos) { size_t p = s.res.err.find(e, at); if (p == Str::npos) { s.viol("order", strf("build %d: message %s is missing at its place: ", s.b, e.c_str()) + s.res.err.substr(at, 200), e); return; } at = p + e.size(); }
    Strs want, got; for (auto &e : runs) { Str c = genContent(e.name, {}, e.w, { { "in.txt", s.rd(ROOT + "/in.txt") } }); if (s.rd(e.dir + "/" + e.name) != c) { s.viol("stale.run", strf("build %d: %s is '", s.b, e.name.c_str()) + s.rd(e.dir + "/" + e.name).substr(0, 160) + "' instead of '" + c.substr(0, 160) + "'", e.name); return; } want.push_back("gen:" + e.dir + "/" + e.name); }
    for (size_t e = s.e0; e < S->execs.size(); ++e) if (S->execs[e].tag.compare(0, 4, "gen:") == 0) got.push_back(S->execs[e].tag); if (b == 1) want.clear();
    for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) if (i >= want.size() || i >= got.size() || want[i] != got[i]) { s.viol(i >= want.size() ? "extra.run" : "order", strf("build %d: execution %d is %s instead of %s", s.b, (int) i, i < got.size() ? got[i].c_str() : "none", i < want.size() ? want[i].c_str() : "none")); return; }
    s.tick(); if (b == 1) s.wr("in.txt", "2\n"); }
}
Str splitVals(const Str &v);
// Variables: definitions of the same names in scripts above and below, which extend, replace or refer to others
static void scopes(Sp &s) {
  Rng &r = s.r; static const char *NM[] = { "VA", "VB", "VC", "VD" }; int nn = r.range(1, 4); struct W { int k; Str t; int v; };   // 0 word, 1 ${v}, 2 ^{t ${v}}, 3 ..${v}, 4 ${v default}
  struct Df { int unit, name, to = 0; bool chk = false, self = false; std::vector<W> w; bool on = true; }; struct Un { int parent; Str dir; std::vector<std::pair<int, int>> seq; };   // seq: 0 definition, 1 rule, 2 script
  int nu = r.range(1, 5); std::vector<Un> un(nu); std::vector<Df> df; std::vector<int> ruleUnit; std::vector<std::vector<int>> ruleUse; s.feat("scopes of variables");
  un[0] = { -1, "", {} }; for (int u = 1; u < nu; ++u) { int p = r.below(u); un[u] = { p, un[p].dir + strf("s%d/", u), {} }; }
  // VA and VB are plain values, VC and VD may be lists
  auto value = [&](Rng &q, int me, bool self) { bool plain = me < 2; std::vector<W> w; if (!self && q.chance(6)) return w; if (plain) { Str x = strf("x%d", (int) q.below(50)); int k = q.below(7), v = me > 0 ? (int) q.below(me) : -1; if (self) w.push_back({ 2, x, me }); else if (k < 3 || v < 0) w.push_back({ 0, x, 0 }); else w.push_back({ k < 5 ? 2 : k == 5 ? 1 : 4, x, v }); return w; }
    int n = q.range(1, 3); for (int i = 0; i < n; ++i) { int k = q.below(7), v = (int) q.below(me); if (k < 3) w.push_back({ 0, strf("w%d", (int) q.below(50)), 0 }); else w.push_back({ k == 3 ? 1 : k == 4 && v < 2 ? 2 : k < 6 ? 3 : 4, strf("x%d", (int) q.below(50)), v }); } if (self) w.insert(w.begin() + q.below(w.size() + 1), { 3, "", me }); return w; };
  // a name refers to names before it only (and to its own previous definition), so that no value needs itself
  for (int u = 0; u < nu; ++u) { int n = r.range(u ? 0 : 1, 4); for (int i = 0; i < n; ++i) { Df d; d.unit = u; d.name = r.below(nn); d.to = u && r.chance(20) ? 1 + r.below(2) : 0; d.self = r.chance(35); d.chk = d.to == 0 && !d.self && r.chance(25); d.w = value(r, d.name, d.self); if (d.chk) d.w = { { 0, strf("k%d", (int) r.below(50)) + (r.chance(25) ? "  l m" : ""), 0 } }; un[u].seq.push_back({ 0, (int) df.size() }); df.push_back(d); } int m = r.range(u ? 0 : 1, 2); while (m--) { std::vector<int> use; int k = r.range(1, nn); for (int i = 0; i < k; ++i) use.push_back(r.below(nn)); un[u].seq.push_back({ 1, (int) ruleUnit.size() }); ruleUnit.push_back(u); ruleUse.push_back(use); } if (u) { auto &q = un[un[u].parent].seq; q.insert(q.begin() + r.below(q.size() + 1), { 2, u }); } }
  // a definition for a script above continues the definitions there, so there must be none of its own below
  auto place = [&](const Df &d) { return d.to == 0 ? d.unit : d.to == 1 ? un[d.unit].parent : 0; };
  for (auto &d : df) if (d.self && d.to) for (int x = d.unit; x != place(d) && d.self; x = un[x].parent) for (auto &e : df) if (e.name == d.name && place(e) == x) { d.self = false; d.w = value(r, d.name, false); break; }
  auto word = [&](const W &w) { Str v = w.k ? NM[w.v] : ""; switch (w.k) { case 0: return w.t; case 1: return "${" + v + "}"; case 2: return "^{" + w.t + " ${" + v + "}}"; case 3: return "..${" + v + "}"; default: return "${" + v + " " + w.t + "}"; } };
  auto write = [&] { for (int u = 0; u < nu; ++u) { Str t = "# u\n"; for (auto &x : un[u].seq) if (x.first == 2) t += strf("include { s%d/Autark }\n", x.second); else if (x.first == 1) { t += strf("run { exec { gen -o r%d.out", x.second); for (size_t i = 0; i < ruleUse[x.second].size(); ++i) t += strf(" [ ${%s none}", NM[ruleUse[x.second][i]]); t += strf(" ] } produces { r%d.out } }\n", x.second); } else { Df &d = df[x.second]; if (!d.on) continue; if (d.chk) { s.wr(un[u].dir + strf(".autark/k%d.sh", x.second), strf("#!/bin/sh\nset -e\nautark set '%s=%s'\n", NM[d.name], d.w[0].t.c_str()), 0755); t += strf("check { k%d.sh }\n", x.second); continue; } t += "set { " + (d.to == 0 ? Str(NM[d.name]) : Str(d.to == 1 ? "parent { " : "root { ") + NM[d.name] + " }"); for (auto &w : d.w) t += " " + word(w); t += " }\n"; } s.wr(un[u].dir + "Autark", t); } };
  // what the names mean: definitions in the order scripts are read, the last one for a scope counts, a definition which uses its own name continues the one before it or the one of a scope above
  auto tail = [](Rng &q) -> Str { static const char *T[] = { " x", "  -y z ", " 'p q' r", " \"a'b\"", "=1", " t\tu" }; return q.chance(70) ? "" : T[q.below(6)]; };
  std::map<Str, Str> opt, env; if (r.chance(30)) for (int i = 0; i < nn; ++i) if (r.chance(50)) (r.chance(50) ? opt : env)[NM[i]] = strf("i%d", (int) r.below(9)) + tail(r);
  auto chain = [&] { std::map<std::pair<int, int>, std::vector<int>> c; std::function<void(int)> go = [&](int u) { for (auto &x : un[u].seq) { if (x.first == 2) go(x.second); else if (x.first == 0 && df[x.second].on) { Df &d = df[x.second]; int at = d.to == 0 ? u : d.to == 1 ? un[u].parent : 0; c[{ at, d.name }].push_back(x.second); } } }; go(0); return c; };
  auto evalAll = [&](std::map<int, Strs> &out) {
    auto c = chain(); std::function<std::optional<Str>(int, int, int)> get; std::function<Str(int, int, size_t)> evalDef;
    get = [&](int u, int name, int) -> std::optional<Str> { for (int x = u; x >= 0; x = un[x].parent) { auto f = c.find({ x, name }); if (f != c.end()) return evalDef(x, name, f->second.size() - 1); if (x == 0) { auto o = opt.find(NM[name]); if (o != opt.end()) return o->second; } } auto e = env.find(NM[name]); if (e != env.end()) return e->second; return std::nullopt; };
    evalDef = [&](int at, int name, size_t i) -> Str { Df &d = df[c[{ at, name }][i]]; auto ref = [&](int v) -> std::optional<Str> { if (v != name) return get(d.unit, v, 0);
        // its own name
        if (i > 0) return evalDef(at, name, i - 1); if (at == 0) { auto o = opt.find(NM[name]); if (o != opt.end()) return o->second; } int up = un[at].parent; if (up >= 0) return get(up, name, 0); auto e = env.find(NM[name]); if (e != env.end()) return e->second; return std::nullopt; };
      auto one = [&](const W &w) -> Str { if (w.k == 0) return w.t; auto v = ref(w.v); switch (w.k) { case 2: return w.t + (v ? *v : Str()); case 4: return v ? *v : w.t; default: return v ? *v : Str(); } };
      if (d.w.size() == 1 && d.w[0].k != 3) return one(d.w[0]); Str o; for (auto &w : d.w) { Str v = one(w); if (w.k == 3) { o += !v.empty() && v[0] == '\1' ? v : splitVals(v); } else { if (v.empty() || v[0] != '\1') o += "\1"; o += v; } } return o; };
    for (size_t k = 0; k < ruleUnit.size(); ++k) { Strs w; for (int v : ruleUse[k]) { w.push_back("["); auto x = get(ruleUnit[k], v, 0); if (!x) { w.push_back("none"); continue; } if (!x->empty() && (*x)[0] == '\1') { size_t a = 1; while (a <= x->size()) { size_t b = x->find('\1', a); if (b == Str::npos) b = x->size(); if (b > a) w.push_back(x->substr(a, b - a)); a = b + 1; } } else if (!x->empty()) w.push_back(*x); } w.push_back("]"); out[k] = w; } };
  std::map<int, Strs> last; bool known = false;
  for (int b = 0, n = r.range(2, 6); b < n && !s.bad(); ++b) { write(); Strs a = s.base(r.range(1, 3)); s.env = { "PATH=/usr/bin:/bin", "HOME=/home/u" }; for (auto &kv : opt) { if (r.chance(15)) a.push_back("-D" + kv.first + (r.chance(50) ? "=before" : "")); a.push_back("-D" + kv.first + (kv.second.empty() && r.chance(50) ? "" : "=" + kv.second)); } for (auto &kv : env) s.env.push_back(kv.first + "=" + kv.second); if (!s.run(a) || !s.mustPass()) return; std::map<int, Strs> want; evalAll(want);
    for (auto &kv : want) { Str o = strf("r%d.out", kv.first), p = s.cache + "/" + un[ruleUnit[kv.first]].dir + o, c = genContent(o, {}, kv.second, {}); if (s.rd(p) != c) { s.viol("stale.run", strf("build %d: %s is '", s.b, o.c_str()) + s.rd(p).substr(0, 200) + "' instead of '" + c.substr(0, 200) + "'", o); return; } }
    if (known) for (size_t e = s.e0; e < S->execs.size(); ++e) if (S->execs[e].tag.compare(0, 4, "gen:") == 0) { int k = atoi(baseName(S->execs[e].tag).c_str() + 1); if (last.count(k) && last[k] == want[k]) { s.viol("extra.run", strf("build %d executed rule %d again although its words are the same", s.b, k), strf("r%d", k)); return; } }
    last = want; known = true; s.R.opIds.push_back(b + 1); uint64_t sd = r.next(); s.tick(); if (s.mk.ops.count(b + 1)) continue; Rng o(sd); for (int q = o.range(0, 2); q > 0; --q) switch (o.below(6)) {
      case 0: { Df &d = df[o.below(df.size())]; d.on = !d.on; s.note(strf("definition of %s %s", NM[d.name], d.on ? "again" : "removed")); known = false; break; }
      case 1: case 2: { Df &d = df[o.below(df.size())]; d.w = value(o, d.name, d.self); if (d.chk) d.w = { { 0, strf("k%d", (int) o.below(50)) + (o.chance(25) ? " l  \"m n\"" : ""), 0 } }; s.note(strf("definition of %s changed", NM[d.name])); known = false; break; }
      case 3: { Str v = NM[o.below(nn)]; if (o.chance(30)) opt.erase(v); else if (o.chance(10)) opt[v] = o.chance(50) ? "" : "a=b"; else opt[v] = strf("o%d", (int) o.below(4)) + tail(o); s.note("option " + v); break; }
      case 4: { Str v = NM[o.below(nn)]; if (o.chance(30)) env.erase(v); else env[v] = strf("n%d", (int) o.below(4)) + tail(o); s.note("environment " + v); break; }
      default: { auto &q2 = un[o.below(nu)].seq; if (q2.size() > 1) { std::swap(q2[o.below(q2.size())], q2[o.below(q2.size())]); s.note("script rearranged"); known = false; } } } }
}
static void deep(Sp &s, int only = -1) {
  Rng &r = s.r; int kind = only >= 0 ? only : r.below(5); Str t; int n;
  if (kind == 0) { n = r.range(20, 150); std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; int how = r.below(3); if (how == 0) std::reverse(o.begin(), o.end()); else if (how == 1) for (int i = n; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); for (int i : o) t += strf("run { exec { gen -o f%d -i %s } consumes { %s } produces { f%d } }\n", i, i ? strf("f%d", i - 1).c_str() : "S{in.txt}", i ? strf("f%d", i - 1).c_str() : "S{in.txt}", i); s.note(strf("chain of %d rules", n)); }
  else if (kind == 1) { n = r.range(20, 150); t = "run { exec { gen -o f0 -i S{in.txt} } consumes { S{in.txt} } produces { f0 } }\nset { LST"; for (int i = 1; i < n; ++i) t += strf(" %d", i); t += " }\nforeach { X ${LST}\nrun { exec { gen -o ^{f ${X}} -i f0 } consumes { f0 } produces { ^{f ${X}} } }\n}\n"; s.note(strf("loop of %d items", n)); }
  else if (kind == 2) { n = r.range(10, 60); for (int i = 0; i < n; ++i) t += "if { yes\n"; t += "run { exec { gen -o f0 -i S{in.txt} } consumes { S{in.txt} } produces { f0 } }\n"; for (int i = 0; i < n; ++i) t += "}\n"; n = 1; s.note("nested conditions"); }
  else if (kind == 3) { n = r.range(10, 60); for (int i = 0; i < n; ++i) t += strf("macro { M%d\n", i) + (i + 1 < n ? strf("call { M%d & }\n", i + 1) : Str("run { exec { gen -o & -i S{in.txt} } consumes { S{in.txt} } produces { &{1} } }\n")) + "}\n"; t += "call { M0 f0 }\n"; n = 1; s.note("nested macros"); }
  else { n = r.range(5, 40); for (int i = 0; i < n; ++i) s.wr(strf("x%d", i), i + 1 < n ? strf("include { x%d }\n", i + 1) : Str("run { exec { gen -o f0 -i S{in.txt} } consumes { S{in.txt} } produces { f0 } }\n")); t = "include { x0 }\n"; n = 1; s.note("nested includes"); }
  s.wr("in.txt", "1\n"); s.wr("Autark", t); s.feat("deep projects");
  for (int ver = 1; ver <= 2; ++ver) { if (!s.run(s.base(r.range(1, 3))) || !s.mustPass()) return; for (int i = 0; i < n; ++i) { Str in = i == 0 ? "in.txt" : kind == 0 ? strf("f%d", i - 1) : "f0"; if (s.rd(s.cache + strf("/f%d", i)) != genContent(strf("f%d", i), {}, {}, { { in, s.rd(i == 0 ? ROOT + "/in.txt" : s.cache + "/" + in) } })) { s.viol("stale.run", strf("f%d is outdated", i), strf("f%d", i)); return; } } if ((int) s.ran("gen:") != n) { s.viol("extra.run", strf("build %d executed %d commands instead of %d", s.b, (int) s.ran("gen:"), n)); return; } if (s.bad()) return; if (r.chance(50)) { if (!s.run(s.base(2)) || !s.mustPass() || !s.idle("deep project")) return; } s.tick(); s.wr("in.txt", strf("%d\n", ver + 1)); }
}

// Several compiler rules of one script which all use the default name of the list of objects, each followed by the rules which use it
static void linkGroups(Sp &s, bool loops = false) {
  Rng &r = s.r; struct G { int unit = 0; bool cxx = false; std::vector<int> src; int links = 1, tests = 0; Str word; }; int nu = r.range(1, 2), ng = r.range(1, 5), sn = 0; std::vector<G> g(ng); std::map<int, int> ver; int hdr[2] = { 1, 1 }; bool loop = loops || r.chance(30); if (loop) ng = nu, g.resize(ng);
  auto dir = [&](int u) { return u ? Str("u/") : Str(); }; auto ext = [&](const G &x) { return x.cxx ? ".cpp" : ".c"; };
  for (int i = 0; i < ng; ++i) { G &x = g[i]; x.unit = loop ? i : (int) r.below(nu); x.cxx = r.chance(25); int n = r.range(1, 4); while (n--) { x.src.push_back(sn); ver[sn++] = 1; } x.links = r.range(1, 2); x.tests = loop; x.word = strf("-w%d", (int) r.below(3)); }
  auto lname = [&](int i, int k) { return strf("g%d_%d.bin", i, k); };
  auto write = [&] { Str t[2]; bool inc = false; int at = r.range(0, ng); (void) at;
    for (int i = 0; i < ng; ++i) { G &x = g[i]; Str v = x.cxx ? "${CXX_OBJS}" : "${CC_OBJS}", &q = t[x.unit]; if (x.unit == 0 && nu > 1 && !inc && i * 2 >= ng) { q += "include { u/Autark }\n"; inc = true; } Str l; for (int c : x.src) l += strf(" c%d%s", c, ext(x)); q += Str(x.cxx ? "cxx" : "cc") + " { set { _" + l + " } }\n";
      if (x.tests) q += "foreach { OBJ " + v + "\n  run { exec { ld -o ^{t_ %{${OBJ}}} " + x.word + " ${OBJ} } consumes { ${OBJ} } produces { ^{t_ %{${OBJ}}} } }\n}\nif { ${RUN_TESTS}\n  foreach {\n    OBJ\n    " + v + "\n    run {\n      always\n      " + (x.links > 1 ? "shell" : "exec") + " { gen -o ^{t_ %{${OBJ}} .log} -i ^{t_ %{${OBJ}}} }\n      consumes { ^{t_ %{${OBJ}}} }\n    }\n  }\n}\n";
      for (int k = 0; k < x.links; ++k) q += "run {\n  exec { ld -o " + lname(i, k) + " " + x.word + strf(" -l%d ", k) + v + " }\n  consumes { " + v + " }\n  produces { " + lname(i, k) + " }\n}\n"; }
    if (nu > 1 && !inc) t[0] += "include { u/Autark }\n"; for (int u = 0; u < nu; ++u) { s.wr(dir(u) + "Autark", t[u]); s.wr(dir(u) + "h.h", strf("int h%d;\n", hdr[u])); } for (auto &x : g) for (int c : x.src) s.wr(dir(x.unit) + strf("c%d%s", c, ext(x)), strf("int x%d;\n%s", ver[c], c % 2 ? "#include \"h.h\"\n" : "")); };
  std::map<Str, Str> last; bool known = false; s.feat("objects of several compiler rules under one name"); s.note(strf("%d compiler rules in %d scripts", ng, nu));
  for (int b = 0, n = r.range(2, 6); b < n && !s.bad(); ++b) { write(); bool tests = loop && r.chance(60); Strs arg = s.base(r.range(1, 4)); if (tests) arg.push_back("-DRUN_TESTS=yes"); if (!s.run(arg) || !s.mustPass()) return; std::map<Str, Str> want;
    if (loop) { std::map<Str, int> n; for (size_t e = s.e0; e < S->execs.size(); ++e) if (S->execs[e].tag.compare(0, 4, "gen:") == 0) ++n[S->execs[e].tag.substr(4)]; size_t all = 0; for (auto &x : g) for (int k : x.src) { ++all; Str f = s.cache + (x.unit ? "/u/" : "/") + strf("t_c%d", k), l = f + ".log"; if (!tests) continue; if (n[l] != 1) { s.viol("extra.run", strf("build %d executed the test for %s %d times", s.b, l.c_str(), n[l]), l); return; } if (s.rd(l) != genContent(baseName(l), {}, {}, { { baseName(f), s.rd(f) } })) { s.viol("order", "test executed before its program was built: " + l, l); return; } } if (n.size() != (tests ? all : 0)) { s.viol("extra.run", strf("build %d executed %d tests", s.b, (int) n.size())); return; } }
    for (int i = 0; i < ng; ++i) { G &x = g[i]; Str c = s.cache + (x.unit ? "/u/" : "/"); std::vector<std::pair<Str, Str>> ob; for (int k : x.src) { Str f = strf("c%d%s", k, ext(x)), o = strf("c%d.o", k); std::vector<std::pair<Str, Str>> in; if (k % 2) in.push_back({ "h.h", s.rd(ROOT + "/" + dir(x.unit) + "h.h") }); want[c + o] = objContent(o, x.cxx ? "c++" : "cc", {}, f, s.rd(ROOT + "/" + dir(x.unit) + f), in); ob.push_back({ o, want[c + o] }); if (x.tests) want[c + strf("t_c%d", k)] = ldContent(strf("t_c%d", k), { x.word }, { ob.back() }); } for (int k = 0; k < x.links; ++k) want[c + lname(i, k)] = ldContent(lname(i, k), { x.word, strf("-l%d", k) }, ob); }
    for (auto &kv : want) if (s.rd(kv.first) != kv.second) { s.viol(kv.first.find(".o") + 2 == kv.first.size() ? "stale.cc" : "stale.run", strf("build %d: %s is outdated: ", s.b, kv.first.c_str()) + s.rd(kv.first).substr(0, 200) + " instead of " + kv.second.substr(0, 200), kv.first); return; }
    std::map<Str, int> ran; for (size_t e = s.e0; e < S->execs.size(); ++e) { const Str &t = S->execs[e].tag; if (t.compare(0, 3, "cc:") == 0 || t.compare(0, 3, "ld:") == 0) ++ran[t.substr(t.find(':') + 1)]; }
    for (auto &kv : ran) { if (kv.second > 1) { s.viol("extra.run", strf("build %d made %s %d times", s.b, kv.first.c_str(), kv.second), kv.first); return; } if (known && !loop && last.count(kv.first) && last[kv.first] == want[kv.first]) { s.viol("extra.run", strf("build %d made %s again although nothing it uses changed", s.b, kv.first.c_str()), kv.first); return; } }
    last = want; known = true; if (r.chance(25) && (!s.run(s.base(2)) || !s.mustPass() || !s.idle("project of several compiler rules"))) return;
    s.R.opIds.push_back(b + 1); uint64_t sd = r.next(); s.tick(); if (s.mk.ops.count(b + 1)) continue; Rng o(sd); for (int q = o.range(1, 3); q > 0; --q) { G &x = g[o.below(ng)]; switch (o.below(6)) { case 0: case 1: case 2: { int c = x.src[o.below(x.src.size())]; ++ver[c]; s.note(strf("edit of source %d", c)); break; } case 3: { int u = o.below(nu); ++hdr[u]; s.note("edit of a header"); break; } case 4: x.src.push_back(sn); ver[sn++] = 1; known = false; s.note("a source more"); break; default: x.word = strf("-w%d", (int) o.below(4)); known = false; s.note("a word changed"); } } }
}

// ---------------------------------------------------------------- spellings of the cache directory

static Str lexical(const Str &p, const Str &cwd) { Str f = p[0] == '/' ? p : cwd + "/" + p; Strs seg; size_t i = 0; while (i < f.size()) { size_t j = f.find('/', i); if (j == Str::npos) j = f.size(); Str x = f.substr(i, j - i); if (x == "..") { if (!seg.empty()) seg.pop_back(); } else if (!x.empty() && x != ".") seg.push_back(x); i = j + 1; } Str o; for (auto &x : seg) o += "/" + x; return o.empty() ? "/" : o; }
static void cachePaths(Sp &s) {
  Rng &r = s.r; s.wr("Autark", "run { exec { gen -o a.out -i S{in.txt} } consumes { S{in.txt} } produces { a.out } }\ncc { m.c objects { OB } }\n"); s.wr("in.txt", "1\n"); s.wr("m.c", "int m;\n"); s.wr("src/x.c", "int x;\n"); s.wr("a.b/keep.txt", "k\n"); s.wr("/w/q/file.txt", "q\n"); s.wr("/w/q/cc/old.txt", "old\n"); s.wr("/w/k.d/z", "z"); s.wr("/home/u/f", "f");
  S->hostSymlink("/w/p", "/w/lnk"); S->hostSymlink(".", "/w/p/self"); S->hostSymlink("..", "/w/p/up"); S->hostSymlink("/w", "/w/p/toW"); S->hostSymlink("/w/q", "/w/p/toQ"); S->hostSymlink("/w/p/src", "/w/q/toSrc"); S->hostSymlink("/", "/w/q/slash"); S->hostSymlink("lnk", "/w/lnk2"); S->hostSymlink("loop1", "/w/p/loop1");
  bool danger = r.chance(55), clean = r.chance(70); Str h;
  static const char *bad[] = { ".", "./", "..", "../", "../..", "/", "/w", "/w/", "/w/p", "/w/p/", "//w//p", "/w/./p", "/w/p/.", "/w/p/..", "/w/q/../p", "../p", "../p/", "src/..", "src/../", "nodir/..", "./nodir/../", "self", "self/self/.", "up", "up/p", "toW", "toW/p", "/w/lnk", "/w/lnk2", "../lnk", "../lnk/", "/w/lnk/.", "/w/q/slash", "/w/q/slash/w/p", "/w/nodir/../p", "/w/no.dir/../p", "/w/.no/../p", "/w/k.d/../p", "/w/.x/.././p/.", "/w/p/a.b/..", "a.b/..", "/w/no.dir/..", "x.y/../../p", "toQ/slash/w", "self/src/..", ".//.", "src/../self", "/../w/p", "/w/p/no.d/../../p" };
  static const char *okp[] = { "out", "./out", "out/", "out/deep/er", "../oc", "/w/oc", "/w/oc/", "/w/q/new", "toQ/new", "src/../out", "./nodir/../out", "/w/p/.cache", "/w/no.dir/../oc", "autark-cache", "./autark-cache/", "self/out", "up/oc", "/w/lnk/out", "out dir/x", "/w/pp", "/w/p2/p", "p", "w/p", "...", "/w/p/../p.x", "toQ/cc", "/w/q/cc/" };
  if (danger) h = bad[r.below(sizeof bad / sizeof *bad)]; else h = okp[r.below(sizeof okp / sizeof *okp)];
  int form = r.below(4), inv = r.below(5); if (danger && h == "/w/p/no.d/../../p") h = "/w/p/no.d/../../p";
  s.cache = danger ? "/(none)" : lexical(h, ROOT); bool viaLink = false; Str lexc = s.cache; if (!danger) { InodeP n; Str rest; Str c = s.cache; while (!(n = S->hostGet(c)) && c != "/") { rest = c.substr(c.rfind('/')) + rest; c = dirName(c); } s.cache = (S->pathOf(n.get()) == "/" ? "" : S->pathOf(n.get())) + rest; viaLink = s.cache != lexc; }
  if (!danger && clean && r.chance(70)) { Str c = s.cache; S->hostMkdirs(c + "/d/e"); S->hostWrite(c + "/d/e/old.txt", "x"); S->hostWrite(c + "/.autark-dist/keep", "keep"); S->hostMkdirs(c + "/.autark-dist"); S->hostWrite(c + "/.autark-dist/keep", "keep"); S->hostSymlink("/w/p", c + "/l1"); S->hostSymlink("/w/q/file.txt", c + "/l2"); S->hostSymlink("../../..", c + "/d/l3"); S->hostWrite(c + "/x.deps", "d"); }
  if (danger && s.has("/w/p/autark-cache")) {}
  auto argvOf = [&](bool cl) { Strs a = s.base(r.range(1, 3)); if (cl) a.push_back("-c"); if (form == 0) { a.push_back("-H"); a.push_back(h); } else if (form == 1) a.push_back("-H" + h); else if (form == 2) a.push_back("--cache=" + h); else { a.push_back("--cache"); a.push_back(h); } return a; };
  auto go = [&](bool cl) { Strs a = argvOf(cl); Str cwd = ROOT; switch (inv) { case 1: cwd = "/w"; a.push_back("p"); break; case 2: cwd = "/w/q"; a.push_back("../p/"); break; case 3: a.push_back("."); break; case 4: cwd = "/"; a.push_back("/w/p"); break; } return s.run(a, cwd); };
  s.note("cache directory option: " + h + (danger ? " (to be refused)" : "")); s.feat(danger ? "dangerous cache directories" : "cache directory spellings");
  for (int k = 0; k < 2 && !s.bad(); ++k) {
    auto before = s.snap(); Strs oldIn; if (!danger) S->walk(s.cache, oldIn); bool cl = clean && (k == 0 || r.chance(30)); if (!go(cl)) return; auto after = s.snap();
    for (auto &kv : before) { auto it = after.find(kv.first); if (it == after.end()) { s.viol("outside", strf("build %d: %s disappeared", s.b, kv.first.c_str())); return; } if (it->second != kv.second) { s.viol("outside", strf("build %d: %s was changed", s.b, kv.first.c_str())); return; } }
    for (auto &kv : after) if (!before.count(kv.first) && !(kv.second.compare(0, 4, "dir ") == 0 && under(s.cache, kv.first))) { s.viol("outside", strf("build %d: %s was created", s.b, kv.first.c_str())); return; }
    if (danger) { if (s.ok()) { s.viol("clean", strf("build %d: cache directory %s was accepted", s.b, h.c_str())); return; } if (s.ran("gen:") || s.ran("cc:")) { s.viol("clean", strf("build %d: commands were executed with cache directory %s", s.b, h.c_str())); return; } continue; }
    if (viaLink && !s.ok()) return;   // relative paths to sources do not work there
    if (!s.mustPass()) return; if (s.rd(s.cache + "/a.out") != genContent("a.out", {}, {}, { { "in.txt", "1\n" } })) { s.viol("stale.run", s.cache + "/a.out is not there", "a.out"); return; } if (!s.has(s.cache + "/m.o")) { s.viol("stale.cc", s.cache + "/m.o is not there"); return; }
    if (cl) { Strs now; S->walk(s.cache, now); for (auto &p : oldIn) { bool dist = p.find("/.autark-dist/") != Str::npos; bool there = S->hostGet(p, false) != nullptr; if (dist && !there) { s.viol("clean", "cleaning removed " + p); return; } if (!dist && there && (p.find("old.txt") != Str::npos || p.find("/l") != Str::npos || p.find("x.deps") != Str::npos)) { s.viol("clean", "cleaning left " + p); return; } } if (s.ran("gen:") != 1 || s.ran("cc:") != 1) { s.viol("clean", strf("build %d did not build everything after cleaning", s.b)); return; } }
    else if (k == 1 && !s.idle("same cache directory")) return;
  }
}

// ---------------------------------------------------------------- large projects under a low descriptor limit

static void large(Sp &s) {
  Rng &r = s.r; int ns = r.range(1, 40), nr = r.range(20, 140), nk = r.chance(60) ? r.range(0, 25) : 0, ncc = r.range(0, 3), nconf = r.chance(30) ? r.range(20, 45) : r.range(0, 6), nin = r.chance(30) ? r.range(20, 50) : 1; bool nest = r.chance(40), inst = r.chance(40); S->rlimitNofile = r.range(28, 40); s.maxFd = 30; int j = r.range(1, 4);
  std::vector<Str> tx(ns); auto dir = [&](int u) { return u == 0 ? Str() : nest ? [&] { Str d; for (int k = 1; k <= u; ++k) if (u % k == 0 && k % 3 == 1) d += strf("d%d/", k); return d + strf("u%d/", u); }() : strf("u%d/", u); };
  std::map<Str, Str> want; for (int k = 0; k < nk; ++k) { int u = r.below(ns); Str nm = strf("k%d.sh", k); s.wr(Str(".autark/") + nm, strf("#!/bin/sh\nset -e\nautark set K%d=v%d\nautark env EV%d\nautark dep /w/p/in%d.txt\n", k, k, k, k) + (r.chance(20) ? "say -n k -s 3000 -e 2000\n" : "") + "exit 0\n", 0755); tx[u] += "check { " + nm + " }\n"; s.wr(strf("in%d.txt", k), "x\n"); }
  for (int i = 0; i < nr; ++i) { int u = r.below(ns); Str o = strf("p%d.out", i); int from = i && r.chance(50) ? (int) r.below(i) : -1; Str c; (void) from; Str w = strf("w%d", i); if (r.chance(15)) w += r.chance(50) ? strf(" @{say -n q%d hello}", i) : strf(" @@{say -n q%d hello}", i); tx[u] += "run { exec { gen -o " + o + strf(" -i S{in.txt} %s } consumes { S{in.txt} } produces { ", w.c_str()) + o + " } }\n"; want[s.cache + "/" + dir(u) + o] = genContent(o, {}, w.find('{') != Str::npos ? Strs{ strf("w%d", i), "hello" } : Strs{ w }, { { "in.txt", "1\n" } }); }
  for (int i = 0; i < ncc; ++i) { int u = r.below(ns), m = r.range(2, 30); Str l; for (int q = 0; q < m; ++q) { Str f = strf("c%d_%d.c", i, q); s.wr(dir(u) + f, strf("int c%d;\n", q) + (r.chance(50) ? "#include \"all.h\"\n" : "")); l += " " + f; } s.wr(dir(u) + "all.h", "int h;\n"); tx[u] += "cc { set { _" + l + strf(" } objects { OB%d } }\n", i); }
  for (int i = 0; i < nconf; ++i) { int u = r.below(ns); Str f = strf("t%d.conf", i); s.wr(dir(u) + f + ".in", strf("value @W%d@ end\n", i)); tx[u] += strf("set { W%d x%d }\nconfigure { ", i, i) + f + ".in }\n"; want[s.cache + "/" + dir(u) + f] = strf("value x%d end\n", i); }
  if (nconf > 6 && r.chance(50)) { tx[0] += "configure {"; for (int i = 0; i < nconf; ++i) { Str f = strf("m%d.conf", i); s.wr(f + ".in", strf("many @W%d@ end\n", i)); tx[0] += " " + f + ".in"; want[s.cache + "/" + f] = strf("many %s end\n", tx[0].find(strf("set { W%d x", i)) != Str::npos ? strf("x%d", i).c_str() : ""); } tx[0] += " }\n"; }
  Str insl; for (int i = 0; i < nin; ++i) { Str f = i ? strf("in_%d.txt", i) : Str("in.txt"); insl += " S{" + f + "}"; if (i) { if (i % 3) s.wr(f, "1\n"); else S->hostSymlink("in.txt", "/w/p/" + f); } }
  Str inc; for (int u = 1; u < ns; ++u) { if (nest && u > 1 && r.chance(50)) {} inc += "include { " + dir(u) + "Autark }\n"; s.wr(dir(u) + "Autark", "# u\n" + tx[u]); } s.wr("Autark", tx[0] + inc + (inst && !want.empty() ? "install { share/x" + insl + " }\n" : "")); s.wr("in.txt", "1\n");
  s.note(strf("%d scripts, %d rules, %d checks, %d compilations, %d templates, descriptor limit %d", ns, nr, nk, ncc, nconf, S->rlimitNofile)); s.feat("large projects"); TW.slowPct = r.chance(50) ? 0 : 10;
  for (int k = 0; k < 2 && !s.bad(); ++k) { Strs a = s.base(j); if (inst) { a.push_back("-I"); a.push_back("-R"); a.push_back("/w/inst"); } if (!s.run(a) || !s.mustPass()) return; for (auto &kv : want) if (s.rd(kv.first) != kv.second) { s.viol("stale.run", kv.first + " has wrong content: " + s.rd(kv.first).substr(0, 80), kv.first); return; } if (k == 1 && !s.idle("large project")) return; }
  if (r.chance(60)) { s.note("clean and build"); s.feat("large project cleaned"); Strs a = s.base(j); a.push_back("-c"); if (inst) { a.push_back("-I"); a.push_back("-R"); a.push_back("/w/inst"); } if (!s.run(a) || !s.mustPass()) return; for (auto &kv : want) if (s.rd(kv.first) != kv.second) { s.viol("stale.run", kv.first + " has wrong content after a clean: " + s.rd(kv.first).substr(0, 80), kv.first); return; } }
  // failures must not leak either: many commands fail or are missing
}

// ---------------------------------------------------------------- large values: templates, program output, check results

static void bigValues(Sp &s) {
  S->stdioCap = 4096;
  Rng &r = s.r; auto len = [&] { static const int l[] = { 1, 900, 1023, 1024, 1025, 4090, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 262144, 1048575, 1048576, 1048577, 1600000 }; return l[r.below(sizeof l / sizeof *l)] + (r.chance(40) ? r.range(-2, 2) + 2 : 0); };
  int nout = len(); bool cached = r.chance(70); bool chk = r.chance(50); int nchk = std::min(len(), 200000); bool viaCheckFile = r.chance(50);
  Str tmpl; int nl = r.range(1, 6); for (int i = 0; i < nl; ++i) { switch (r.below(6)) { case 0: tmpl += "a @BIG@ b @BIG@\n"; break; case 1: tmpl += Str(std::min(len(), 70000), 'x') + "@S@" + Str(r.range(0, 5000), 'y') + "\n"; break; case 2: tmpl += "//autarkdef S \"\"\n"; break; case 3: tmpl += "plain\r\n"; break; case 4: tmpl += chk ? "[@K0@]\n" : "[@none@]\n"; break; default: tmpl += "@S@@S@@UNSET@@S@\n"; } } bool nonl = r.chance(30); if (nonl) tmpl += "last @S@"; if (r.chance(15)) tmpl = r.chance(50) ? "" : "@S@";
  Str out = bulkText("sbig", nout); while (!out.empty() && (out.back() == '\n' || out.back() == '\r')) out.pop_back();
  Str kval = bulkText("kv", nchk); for (auto &c : kval) if (c == '\n' || c == '\r') c = '.'; if (viaCheckFile) s.wr("kin.txt", kval + "\n");
  Str t; if (chk) { s.wr(".autark/k0.sh", viaCheckFile ? Str("#!/bin/sh\nset -e\nreadf T /w/p/kin.txt\nautark dep /w/p/kin.txt\nautark set \"K0=${T}\"\n") : "#!/bin/sh\nset -e\nautark set 'K0=" + kval + "'\n", 0755); t += "check { k0.sh }\n"; }
  Str tool = Str(cached ? "@@" : "@") + strf("{say -n big -s %d}", nout); t += "set { BIG " + tool + " }\nset { S short }\nconfigure { f.txt.in }\nrun { exec { gen -o len.out w ${S} } produces { len.out } }\n"; if (nout < 120000 && r.chance(50)) t += "run { exec { gen -o big.out ${BIG} } produces { big.out } }\n";
  s.wr("Autark", t); s.wr("f.txt.in", tmpl); s.note(strf("template of %d bytes, program output of %d bytes, check value of %d bytes", (int) tmpl.size(), nout, chk ? nchk : 0)); s.feat("large values");
  for (int k = 0; k < 3 && !s.bad(); ++k) {
    if (!s.run(s.base(1)) || !s.mustPass()) return;
    Str exp; size_t i = 0; while (i < tmpl.size()) { size_t j = tmpl.find('\n', i); Str l = tmpl.substr(i, j == Str::npos ? Str::npos : j + 1 - i); i = j == Str::npos ? tmpl.size() : j + 1; if (l.compare(0, 13, "//autarkdef S") == 0) { exp += "#define S \"short\"\n"; continue; }
      size_t q = 0; for (;;) { size_t a = l.find('@', q); if (a == Str::npos) break; size_t e = l.find('@', a + 1); if (e == Str::npos) break; exp += l.substr(q, a - q); Str n = l.substr(a + 1, e - a - 1); exp += n == "BIG" ? out : n == "S" ? "short" : n == "K0" && chk ? kval : ""; q = e + 1; } exp += l.substr(q); }
    Str got = s.rd(s.cache + "/f.txt"); if (got != exp) { size_t d = 0; while (d < got.size() && d < exp.size() && got[d] == exp[d]) ++d; s.viol("stale.conf", strf("build %d: f.txt differs from its template at byte %zu (%zu bytes instead of %zu)", s.b, d, got.size(), exp.size()), "f.txt"); return; }
    if (t.find("big.out") != Str::npos && s.rd(s.cache + "/big.out") != genContent("big.out", {}, { out }, {})) { s.viol("stale.run", strf("build %d: big.out was built with another value", s.b), "big.out"); return; }
    bool used = tmpl.find("@BIG@") != Str::npos || t.find("big.out") != Str::npos; size_t q = s.ran("say:big"); if (!used) q = cached && k ? 0 : 1; if (cached && k > 0 && q) { s.viol("extra.cout", strf("build %d executed a cached program again", s.b), "say:big"); return; } if (!cached && !q) { s.viol("nocout", strf("build %d did not execute an uncached program", s.b), "say:big"); return; } if (k == 0 && q == 0) { s.viol("nocout", "program was not executed", "say:big"); return; }
    if (k > 0 && s.ran("check:")) { s.viol("extra.check", strf("build %d executed a check again", s.b)); return; } if (k > 0 && s.ran("gen:")) { s.viol("extra.run", strf("build %d executed rules again", s.b)); return; }
  }
}

// ---------------------------------------------------------------- odd scripts
// Directives and expressions with missing, empty and undefined parts anywhere, and damaged texts.  Their
// own names all begin with z, so the ordinary rules of the project do not depend on them.

struct Odd {
  Rng &r; Strs ods; int depth = 0;
  Str name() { static const char *n[] = { "za", "zb", "zc", "zl", "znone", "zenv", "CC_OBJS", "zo" }; return n[r.below(8)]; }
  Str word() { switch (r.below(14)) { case 0: return "''"; case 1: return "\"\""; case 2: return "%s%n%d"; case 3: return "'two words'"; case 4: return "0"; case 5: return "100%"; case 6: return "\"q\\\"uo\\\\te\""; case 7: return "-z"; case 8: return "z.c"; case 9: return "zf.txt"; case 10: return Str(r.chance(20) ? r.range(1, 9000) : r.range(1, 300), 'w'); case 11: return "a=b"; default: return strf("w%d", (int) r.below(5)); } }
  Str val() {
    if (++depth > 5) { --depth; return word(); } Str o;
    switch (r.below(26)) {
      case 0: case 1: case 2: case 3: o = word(); break; case 4: case 5: case 6: o = "${" + name() + "}"; break; case 7: o = "..${" + name() + "}"; break;
      case 8: o = "${" + name() + " " + val() + "}"; break; case 9: o = "${}"; break; case 10: o = "@{}"; break; case 11: o = "@@{}"; break; case 12: o = "@{" + val() + "}"; break;
      case 13: o = Str(r.chance(50) ? "@{" : "@@{") + "say -n z1 -q }"; break; case 14: o = Str(r.chance(50) ? "@{" : "..@@{") + "say -n z2 " + val() + " }"; break;
      case 15: o = "^{" + vals(3) + "}"; break; case 16: o = "%{" + vals(3) + "}"; break; case 17: { static const char *d[] = { "S", "SS", "C", "CC" }; o = Str(d[r.below(4)]) + "{" + vals(2) + "}"; break; }
      case 18: o = "set { _ " + vals(3) + " }"; break; case 19: o = "set { " + val() + " " + vals(2) + " }"; break; case 20: o = "if { " + cond() + " " + vals(2) + " }" + (r.chance(40) ? " else { " + vals(2) + " }" : Str()); break;
      case 21: o = "in-sources { " + vals(2) + " }"; break; case 22: o = "&"; break; case 23: o = "&{" + word() + "}"; break; case 24: o = word() + " { " + vals(2) + " }"; break; default: o = "..@{ say -n z3 }"; }
    --depth; return o;
  }
  Str vals(int m) { Str o; int n = r.below(m + 1); for (int i = 0; i < n; ++i) o += " " + val(); return o; }
  Str cond() { static const char *c[] = { "defined", "eq", "prefix", "contains", "or", "and" }; Str ng = r.chance(30) ? "!" : ""; if (r.chance(25)) return ng + val(); return ng + c[r.below(6)] + " { " + vals(3) + " }"; }
  Str cmd() { switch (r.below(8)) { case 0: return vals(3); case 1: return ""; case 2: return val() + " " + val(); case 3: case 4: return strf("gen -o z%d.out ", (int) r.below(3)) + vals(3); default: return "say -n z9 " + vals(3); } }
  Str body() { Str o; int n = r.below(4); for (int i = 0; i < n; ++i) switch (r.below(9)) { case 0: o += " always"; break; case 1: case 2: o += " exec { " + cmd() + " }"; break; case 3: o += " shell { " + (r.chance(50) ? "say -n z8 " + vals(2) : r.chance(30) ? Str("true") : vals(2)) + " }"; break; case 4: o += " consumes { " + vals(2) + " }"; break; case 5: o += " produces { " + vals(2) + " }"; break; case 6: o += strf(" produces { z%d.out }", (int) r.below(3)); break; case 7: o += " consumes { zf.txt }"; break; default: o += " " + val(); } return o; }
  Str dir() {
    if (++depth > 4) { --depth; return "set { za x }\n"; } Str o;
    switch (r.below(25)) {
      case 0: case 1: case 2: { static const char *k[] = { "set", "set", "let", "env" }; static const char *w[] = { "parent", "root", "other" }; Str nm = name(); if (r.chance(25)) nm = Str(w[r.below(3)]) + " { " + (r.chance(70) ? name() : vals(2)) + " }"; else if (r.chance(10)) nm = val(); o = Str(k[r.below(4)]) + " { " + nm + " " + vals(3) + " }"; break; }
      case 3: case 4: case 5: case 6: o = Str(r.chance(8) ? "run-on-install" : "run") + " { " + body() + " }"; break;
      case 7: o = "run { exec { gen -o z0.out " + vals(3) + " } produces { z0.out } " + body() + " }"; break;
      case 8: o = "foreach { " + (r.chance(80) ? Str("zi") : vals(1)) + " " + vals(3) + " run { " + (r.chance(50) ? Str("exec { gen -o ^{z ${zi} .out} ${zi} } produces { ^{z ${zi} .out} }") : body()) + " } }"; break;
      case 9: case 10: o = Str(r.chance(70) ? "cc" : "cxx") + " { " + (r.chance(60) ? Str("z.c") : vals(2)) + " " + vals(3) + (r.chance(30) ? " objects { " + (r.chance(60) ? name() : vals(2)) + " }" : Str()) + (r.chance(30) ? " consumes { " + vals(2) + " }" : Str()) + " }"; break;
      case 11: case 12: o = "configure { " + (r.chance(50) ? Str("z.txt.in ") : Str()) + vals(2) + " }"; break;
      case 13: o = "install { " + vals(3) + " }"; break; case 14: o = "include { " + (r.chance(50) ? Str("zz/Autark") : vals(2)) + " }"; break;
      case 15: o = "check { " + (r.chance(50) ? Str(r.chance(50) ? "zk.sh" : "zk.sh { " + vals(2) + " }") : vals(2)) + " }"; break;
      case 16: case 17: { o = "if { " + cond() + "\n"; int n = r.below(3); for (int i = 0; i < n; ++i) o += dir(); o += "}"; if (r.chance(40)) { o += " else {\n"; n = r.below(3); for (int i = 0; i < n; ++i) o += dir(); o += "}"; } break; }
      case 18: o = "macro { " + (r.chance(80) ? Str("ZM") : vals(2)) + "\n" + (r.chance(80) ? dir() : Str()) + "}"; break; case 19: o = "call { " + (r.chance(80) ? Str("ZM ") : Str()) + vals(2) + " }"; break;
      case 20: o = "meta { " + (r.chance(50) ? "zname { " + vals(2) + " } " : Str()) + (r.chance(50) ? "let { " + (r.chance(70) ? name() : Str()) + " " + vals(2) + " } " : Str()) + (r.chance(20) ? val() : Str()) + " }"; break;
      case 21: o = (r.chance(15) ? "error { " : "echo { ") + vals(4) + (r.chance(30) ? " init { " + vals(2) + " }" : Str()) + (r.chance(30) ? " setup { " + vals(2) + " }" : Str()) + " }"; break;
      case 22: o = "library { " + (r.chance(70) ? name() : vals(1)) + " " + vals(2) + " }"; break; case 23: o = "in-sources {\n" + (r.chance(70) ? dir() : Str()) + "}"; break; default: o = r.chance(50) ? "option { " + vals(3) + " }" : r.chance(50) ? "# " + word() : word() + " { " + vals(3) + " }"; }
    --depth; return o + "\n";
  }
  Str checkScript() { Str o = "#!/bin/sh\n" + Str(r.chance(60) ? "set -e\n" : ""); int n = r.range(1, 5); for (int i = 0; i < n; ++i) switch (r.below(16)) {
    case 0: o += "autark set\n"; break; case 1: o += "autark set '=x'\n"; break; case 2: o += "autark set za\n"; break; case 3: o += "autark set 'za=k' 'zb=l'\n"; break; case 4: o += "autark set '" + name() + "=" + Str(r.below(3) * 2000, 'v') + "=" + "'\n"; break;
    case 5: o += "autark dep\n"; break; case 6: o += "autark dep ''\n"; break; case 7: o += "autark dep /w/p/none /w/p/zf.txt\n"; break; case 8: o += "autark dep /w/p\n"; break; case 9: o += "autark env\n"; break; case 10: o += "autark env '' za\n"; break; case 11: o += "autark env 'z=a'\n"; break;
    case 12: o += "autark glob '[' '*' ''\n"; break; case 13: o += "autark bogus\n"; break; case 14: o += "autark -J zz set za=1\n"; break; default: o += "autark set 'za=%s \t v'\n"; } return o; }
  Str option() { static const char *d[] = { "-Jabc", "-J-1", "-J99999999999999999999", "-J0", "-J", "-D", "-D=", "-D=y", "-Dza", "-Dza=", "-Dza=1=2", "-C/none", "--libdir=", "--prefix=", "--bindir=/", "--mandir=..", "--nothing", "-x", "-V", "-I", "-l", "-v", "-h", "--jobs=3x", "-D%s=%n", "set", "dep", "env", "glob", "/none", "/w/p/in.txt" }; return d[r.below(31)]; }
  Str damage(Str t) { int n = r.range(1, 4); for (int i = 0; i < n && !t.empty(); ++i) { size_t a = r.below(t.size()), l = 1 + r.below(r.chance(70) ? 4 : 40); switch (r.below(8)) { case 0: t.erase(a, l); break; case 1: t.insert(a, t.substr(a, l)); break; case 2: { static const char *x[] = { "{", "}", "'", "\"", "\\", "#", "\n", " ", "$", "@", "..", "!", "&", "^", "\t", "\r\n", "{}", "\x01", "\xc3\xa9", "\xff", "%s", "''", "else" }; t.insert(a, x[r.below(23)]); break; } case 3: t = t.substr(0, a); break; case 4: { size_t b = r.below(t.size()); Str x = t.substr(b, l); t.insert(a, x); break; } case 5: t[a] = (char) (r.chance(30) ? 1 + r.below(255) : 33 + r.below(94)); break; case 6: { static const char d[] = "{}'\"\\#"; t[a] = d[r.below(6)]; break; } default: { size_t q = t.find_first_of("{}", a); if (q != Str::npos) t.erase(q, 1); } } } return t; }
};
static void oddScripts(Sp &s) {
  Rng &r = s.r; Odd o{ r, {} }; bool two = r.chance(50);
  auto good = [&](int u) { return u == 0 ? Str("set { BV x }\nrun { exec { gen -o a.out ${BV} -i S{in.txt} } consumes { S{in.txt} } produces { a.out } }\nconfigure { b.txt.in }\ncc { m.c objects { OB } }\n") : Str("run { exec { gen -o c.out -i a.out } consumes { ../a.out } produces { c.out } }\n"); };
  s.wr("in.txt", "1\n"); s.wr("m.c", "int m;\n#include \"m.h\"\n"); s.wr("m.h", "int h;\n"); s.wr("b.txt.in", "v @BV@ e\n"); s.wr("z.c", "int z;\n"); s.wr("zf.txt", "z\n"); s.wr("z.txt.in", "@za@ @zb@\n//autarkdef za \"\n"); s.wr(".autark/zk.sh", "#!/bin/sh\nset -e\nautark set za=k\nautark dep /w/p/zf.txt\n", 0755);
  if (r.chance(40)) s.env.push_back("za=env"); if (r.chance(30)) s.env.push_back("zb="); bool verbose = r.chance(25), inst = r.chance(20), list = r.chance(10);
  int v = 1; auto write = [&](bool odd) {
    Str t[3]; for (int u = 0; u < (two ? 2 : 1); ++u) { Str g = good(u); if (u == 1) g = "set { U1 y }\n" + g; if (u == 0 && two) g += "include { u1/Autark }\n"; t[u] = g; }
    if (two) { size_t q; while ((q = t[1].find("../a.out")) != Str::npos) t[1].replace(q, 8, "/w/p/autark-cache/a.out"); if ((q = t[1].find("-i a.out")) != Str::npos) t[1].replace(q, 8, "-i /w/p/autark-cache/a.out"); }
    int dmg = 0; Str zz = "set { zo y }\n";
    if (odd) { int n = r.range(1, 5); for (int i = 0; i < n; ++i) { if (s.mk.rules.count(i)) { Str x = o.dir(); (void) x; continue; } Str x = o.dir(); int u = two && r.chance(35) ? 1 : r.chance(15) ? 2 : 0; if (u == 2) zz += x; else if (r.chance(50)) t[u] = x + t[u]; else t[u] += x; s.note("script " + Str(u == 2 ? "zz" : u ? "u1" : "root") + ": " + (x.size() > 600 ? x.substr(0, 600) : x)); } s.R.nRules = n; if (r.chance(30)) { dmg = 1 + r.below(two ? 2 : 1); t[dmg - 1] = o.damage(t[dmg - 1]); s.note("damaged script: " + t[dmg - 1]); } }
    s.wr("Autark", t[0]); if (two) s.wr("u1/Autark", t[1]); s.wr("zz/Autark", zz); return dmg;
  };
  auto good1 = [&](bool strict) { if (!strict) return true; Str in = s.rd("/w/p/in.txt"), a = genContent("a.out", {}, { "x" }, { { "in.txt", in } }); if (s.rd(s.cache + "/a.out") != a) { s.viol("stale.run", strf("build %d: a.out is outdated", s.b), "a.out"); return false; } if (s.rd(s.cache + "/b.txt") != "v x e\n") { s.viol("stale.conf", strf("build %d: b.txt is outdated", s.b), "b.txt"); return false; } if (!s.has(s.cache + "/m.o")) { s.viol("stale.cc", "m.o is missing", "m.o"); return false; } if (two && s.rd(s.cache + "/u1/c.out") != genContent("c.out", {}, {}, { { "a.out", a } })) { s.viol("stale.run", strf("build %d: c.out is outdated", s.b), "c.out"); return false; } return true; };
  s.feat("odd scripts"); if (r.chance(50)) { write(false); if (!s.run(s.base(1)) || !s.mustPass() || !good1(true)) return; }
  int k, n = r.range(1, 3); bool clean = false;
  for (k = 0; k < n && !s.bad(); ++k) {
    if (write(true)) clean = true; if (r.chance(30)) { Str c = o.checkScript(); s.wr(".autark/zk.sh", c, 0755); s.note("check script: " + c); } if (r.chance(40)) s.wr("in.txt", strf("%d\n", ++v)); Strs a = s.base(r.range(1, 3)); if (verbose) a.push_back("-V"); if (inst) { a.push_back("-R"); a.push_back("/w/inst"); } if (list && r.chance(50)) a.push_back("-l"); if (r.chance(20)) a.push_back("-Dzc=opt"); bool oc = r.chance(15); if (oc) for (int q = r.range(1, 3); q--;) { Str x = o.option(); s.note("option " + x); if (x[0] == '-' && r.chance(30)) a.insert(a.begin() + 1 + r.below(a.size()), x); else a.push_back(x); }
    if (!s.run(a)) return; s.feat(s.ok() ? "odd scripts built" : "odd scripts rejected");
    if (s.ok() && !clean && !oc && !(list && a.back() == "-l") && std::find(a.begin(), a.end(), "-l") == a.end() && !good1(false)) return;
  }
  if (s.bad()) return; write(false); Strs a = s.base(r.range(1, 3)); if (clean) a.push_back("-c"); if (!s.run(a) || !s.mustPass() || !good1(true)) return;
  if (!s.bad() && r.chance(50)) { if (!s.run(s.base(1)) || !s.mustPass()) return; s.idle("after odd scripts"); }
}

// Scripts which are too large, or have zero bytes (torn writes): refused or taken as a whole, never in part.
static void wholeScripts(Sp &s) {
  Rng &r = s.r; int u = r.below(2), v = 1; s.wr("in.txt", "1\n"); s.feat("whole scripts");
  auto rule = [&](const char *o) { return strf("run { exec { gen -o %s %s -i /w/p/in.txt } consumes { /w/p/in.txt } produces { %s } }\n", o, r.chance(30) ? "'x'" : "x", o); };
  auto write = [&](int mode) {
    Str h = rule("a.out"), t = rule("tail.out"), m; if (mode == 1) { size_t lim = 1048576, n; switch (r.below(5)) { case 0: n = lim - h.size() - r.below(3); break; case 1: n = lim - h.size() - t.size() + r.below(3) - 1; break; case 2: n = lim + r.below(20000); break; case 3: n = lim - r.below(20000); break; default: n = r.below(3 * lim); }
      Str line = r.chance(50) ? "# " + Str(r.range(1, 200), 'c') + "\n" : Str(r.chance(50) ? "\n" : " "); m.reserve(n); while (m.size() + line.size() <= n) m += line; if (m.size() < n) { m += Str(n - m.size() - 1, ' '); m += '\n'; } s.note(strf("script of %zu bytes", h.size() + m.size() + t.size())); }
    else if (mode == 2) { m = Str(r.chance(50) ? 1 : r.range(1, 5000), '\0'); if (r.chance(30)) m = "# " + m + "\n"; else if (r.chance(30)) m += "\n"; if (r.chance(20)) { t += m; m.clear(); } s.note("script with zero bytes"); }
    Str x = h + m + t; if (u) { s.wr("u1/Autark", x); x = "include { u1/Autark }\n" + rule("r.out"); } s.wr("Autark", x);
  };
  auto good = [&](bool tailOk) { Str in = s.rd("/w/p/in.txt"); Strs o{ Str(u ? "/u1" : "") + "/a.out", Str(u ? "/u1" : "") + "/tail.out" }; if (u) o.push_back("/r.out"); (void) tailOk; for (auto &p : o) { Str n = p.substr(p.rfind('/') + 1); if (s.rd(s.cache + p) != genContent(n, {}, { "x" }, { { "in.txt", in } })) { s.viol("stale.run", strf("build %d: a part of the script was not taken: %s is outdated", s.b, p.c_str()), n); return false; } } return true; };
  if (r.chance(60)) { write(0); if (!s.run(s.base(1)) || !s.mustPass() || !good(true)) return; }
  int n = r.range(1, 2); for (int k = 0; k < n && !s.bad(); ++k) { write(r.chance(50) ? 1 : 2); s.wr("in.txt", strf("%d\n", ++v)); if (!s.run(s.base(1))) return; s.feat(s.ok() ? "whole scripts built" : "whole scripts refused"); if (s.ok() && !good(true)) return; }
  if (s.bad()) return; write(0); if (!s.run(s.base(1)) || !s.mustPass() || !good(true)) return;
}

// Records of earlier builds which are damaged (lost, cut, overwritten) between builds.
static void damagedRecords(Sp &s) {
  Rng &r = s.r; Odd o{ r, {} }; bool chk = r.chance(60);
  s.wr("in.txt", "1\n"); s.wr("m.c", "int m;\n#include \"m.h\"\n"); s.wr("n.c", "int n;\n"); s.wr("m.h", "int h;\n"); s.wr("b.txt.in", "v @BV@ @za@ e\n"); s.wr("zf.txt", "z\n"); s.wr(".autark/zk.sh", "#!/bin/sh\nset -e\nautark set za=k\nautark dep /w/p/zf.txt\nautark env EE\n", 0755);
  Str t = Str(chk ? "check { zk.sh }\n" : "set { za k }\n") + "set { BV x }\nrun { exec { gen -o a.out ${BV} @@{say -n zc -s 40} -i S{in.txt} } consumes { S{in.txt} } produces { a.out } }\nconfigure { b.txt.in }\ncc { set { _ m.c n.c } objects { OB } }\nforeach { I set { _ 1 2 }\nrun { exec { gen -o ^{f ${I}} ${I} } produces { ^{f ${I}} } }\n}\n"; s.wr("Autark", t);
  s.feat("damaged records"); if (!s.run(s.base(1)) || !s.mustPass()) return; Str a0 = s.rd(s.cache + "/a.out"), b0 = s.rd(s.cache + "/b.txt"), f0 = s.rd(s.cache + "/f1");
  int n = r.range(1, 3); for (int k = 0; k < n && !s.bad(); ++k) {
    Strs all, rec; S->walk(s.cache, all); for (auto &p : all) { InodeP i = S->hostGet(p, false); if (i && i->type == I_FILE && !i->data.empty() && p.find(".out") == Str::npos && p.find("/f") == Str::npos && (p.size() < 2 || p.compare(p.size() - 2, 2, ".o") != 0) && p != s.cache + "/b.txt") rec.push_back(p); }
    if (rec.empty()) break; int m = r.range(1, 4); for (int j = 0; j < m; ++j) { Str p = rec[r.below(rec.size())]; InodeP i = S->hostGet(p, false); if (!i) continue; int h = r.below(7); if (h == 0) i->data.clear(); else if (h == 1) i->data = i->data.substr(0, r.below(i->data.size() + 1)); else if (h == 2) i->data = Str(i->data.size(), '\0'); else if (h == 3) { S->hostUnlink(p); } else i->data = o.damage(i->data); s.note(strf("damaged %s: ", p.c_str()) + (h == 3 ? "removed" : i->data.substr(0, 300))); }
    if (!s.run(s.base(r.range(1, 2)))) return; s.feat(s.ok() ? "damaged records: built" : "damaged records: refused");
  }
  if (s.bad()) return; Strs a = s.base(1); a.push_back("-c"); if (!s.run(a) || !s.mustPass()) return;
  if (s.rd(s.cache + "/a.out") != a0) s.viol("stale.run", "a.out is wrong after cleaning damaged records", "a.out"); if (s.rd(s.cache + "/b.txt") != b0) s.viol("stale.conf", "b.txt is wrong after cleaning damaged records", "b.txt"); if (s.rd(s.cache + "/f1") != f0) s.viol("stale.run", "f1 is wrong after cleaning damaged records", "f1");
}

int specialShare(const Str &p) { if (p == "C21" || p == "C22" || p == "C23") return 100; if (p == "C28") return 50; if (p == "C13") return 50; if (p == "C25") return 20; if (p == "C08") return 35; if (p == "C17") return 35; if (p == "C02") return 5; if (p == "C05") return 8; if (p == "C26") return 18; if (p == "C27") return 40; if (p == "C15") return 3; if (p == "C01" || p == "C06" || p == "C14") return 6; if (p == "C18" || p == "C11" || p == "C10") return 8; return 0; }
ScnResult runSpecial(const Str &prop, uint64_t seed, const Masks &mk, const std::vector<FaultSpec> &fs, bool trace, std::vector<Str> *traceOut) {
  ScnResult R; freshSim(seed, mk.simple); S->traceOn = trace; Sp s(prop, seed, mk, R); s.faults = fs; S->hostMkdirs(ROOT); TW.slowPct = mk.simple ? 0 : s.r.chance(40) ? s.r.range(5, 50) : 0; S->ttyOut = s.r.chance(25);
  if (prop == "C13") { int k = s.r.below(100); if (k < 50) cycles(s); else if (k < 70) recursion(s); else if (k < 88) selfVars(s); else deep(s); }
  else if (prop == "C21") { if (s.r.chance(3)) wholeScripts(s); else if (s.r.chance(85)) oddScripts(s); else damagedRecords(s); }
  else if (prop == "C25") { int k = s.r.below(100); if (k < 50) macros(s); else if (k < 88) macroOrder(s); else deep(s); }
  else if (prop == "C22") dependentProjects(s);
  else if (prop == "C23") lookups(s);
  else if (prop == "C28") places(s);
  else if (prop == "C08") cachePaths(s);
  else if (prop == "C17") large(s);
  else if (prop == "C01" || prop == "C06" || prop == "C14") linkGroups(s);
  else if (prop == "C26") { int k = s.r.below(100); if (k < 45) linkGroups(s, true); else if (k < 85) loopOutputs(s); else deep(s, 1); }
  else if (prop == "C27") { if (s.r.chance(70)) scopes(s); else if (s.r.chance(60)) macroOrder(s); else selfVars(s); }
  else if (prop == "C15" || (prop == "C05" && s.r.chance(30))) macroOrder(s);
  else if (prop == "C02" || prop == "C05") { if (s.r.chance(50)) deep(s); else large(s); }
  else bigValues(s);
  R.hash = S->hash; R.steps = S->steps; R.simNs = S->now - 1700000000ll * 1000000000ll; R.inter = S->interleaveHash; R.switches = S->switches; R.points.assign(S->schedPoints.begin(), S->schedPoints.end()); R.faultKinds = S->faultKinds;
  if (traceOut) *traceOut = S->trace;
  return R;
}
