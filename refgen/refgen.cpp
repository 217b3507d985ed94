// Reference LALR(1) tables, computed from gram.y (Bison's input language and conflict rules) and kwlist.h,
// independently of /repo's generator: LR(0) automaton + DeRemer/Pennello lookaheads.
// refgen gram.y kwlist.h OUTDIR  ->  OUTDIR/tables.bin, OUTDIR/names.rs, OUTDIR/summary.json, OUTDIR/sentences.json
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using std::map; using std::pair; using std::set; using std::string; using std::vector;

static string readFile(const char *p) { std::ifstream f(p); if (!f) { fprintf(stderr, "refgen: cannot read %s\n", p); exit(2); } std::stringstream s; s << f.rdbuf(); return s.str(); }
[[noreturn]] static void die(const string &m) { fprintf(stderr, "refgen: %s\n", m.c_str()); exit(2); }

struct Tok { enum K { ID, LIT, COLON, SEMI, BAR, PREC, EMPTY, ACTION, END } k; string s; };
// tokens of the rules section
static vector<Tok> lexRules(const string &t) {
  vector<Tok> v; size_t i = 0, n = t.size();
  auto skipComment = [&]() { if (t.compare(i, 2, "/*") == 0) { size_t e = t.find("*/", i + 2); if (e == string::npos) die("comment"); i = e + 2; return true; } if (t.compare(i, 2, "//") == 0) { while (i < n && t[i] != '\n') i++; return true; } return false; };
  auto skipQuoted = [&]() { char q = t[i++]; while (i < n && t[i] != q) { if (t[i] == '\\') i++; i++; } i++; };
  while (i < n) {
    char c = t[i];
    if (isspace((unsigned char)c)) { i++; continue; }
    if (skipComment()) continue;
    if (c == ':') { v.push_back({Tok::COLON, ":"}); i++; continue; }
    if (c == ';') { v.push_back({Tok::SEMI, ";"}); i++; continue; }
    if (c == '|') { v.push_back({Tok::BAR, "|"}); i++; continue; }
    if (c == '{') { int d = 0; do { if (skipComment()) continue; if (t[i] == '"' || t[i] == '\'') { skipQuoted(); continue; } if (t[i] == '{') d++; if (t[i] == '}') d--; i++; } while (d && i < n); v.push_back({Tok::ACTION, ""}); continue; }
    if (c == '\'') { size_t b = i; skipQuoted(); v.push_back({Tok::LIT, t.substr(b + 1, i - b - 2)}); continue; }
    if (c == '%') { size_t b = i++; while (i < n && (isalnum((unsigned char)t[i]) || t[i] == '-' || t[i] == '_')) i++; string d = t.substr(b, i - b); if (d == "%prec") v.push_back({Tok::PREC, d}); else if (d == "%empty") v.push_back({Tok::EMPTY, d}); else die("directive " + d); continue; }
    if (isalpha((unsigned char)c) || c == '_') { size_t b = i; while (i < n && (isalnum((unsigned char)t[i]) || t[i] == '_' || t[i] == '.')) i++; v.push_back({Tok::ID, t.substr(b, i - b)}); continue; }
    die(string("unexpected character '") + c + "' in the rules");
  }
  v.push_back({Tok::END, ""}); return v;
}
struct Rule { int lhs; vector<int> rhs; int prec; };
static vector<string> symName; static map<string, int> symId; static vector<bool> isTerm; // literals are named 'c'
static int sym(const string &s) { auto it = symId.find(s); if (it != symId.end()) return it->second; int id = symName.size(); symName.push_back(s); symId[s] = id; return id; }
static string kindName(const string &s) { // name of the SyntaxKind variant
  static const map<char, string> m = {{'-', "Minus"}, {',', "Comma"}, {';', "Semicolon"}, {':', "Colon"}, {'!', "Exclamation"}, {'?', "Question"}, {'.', "Dot"}, {'(', "LParen"}, {')', "RParen"}, {'[', "LBracket"}, {']', "RBracket"}, {'{', "LBrace"}, {'}', "RBrace"}, {'@', "At"}, {'*', "Star"}, {'/', "Slash"}, {'\\', "Backslash"}, {'&', "Ampersand"}, {'#', "Pound"}, {'%', "Percent"}, {'`', "Backtick"}, {'^', "Caret"}, {'+', "Plus"}, {'<', "Less"}, {'=', "Equals"}, {'>', "Greater"}, {'|', "Pipe"}, {'~', "Tilde"}, {'$', "Dollar"}};
  if (s.size() == 3 && s[0] == '\'') { auto it = m.find(s[1]); if (it == m.end()) die("no name for " + s); return it->second; }
  string r; for (char c : s) { if (c == '$') r += "Dollar"; else r += c; } return r;
}
int main(int argc, char **argv) {
  if (argc < 4) die("usage"); string g = readFile(argv[1]), out = argv[3];
  size_t p1 = g.find("\n%%"), p2 = g.find("\n%%", p1 + 3); if (p1 == string::npos) die("no %%");
  string decl = g.substr(0, p1), rules = g.substr(p1 + 3, p2 == string::npos ? string::npos : p2 - p1 - 3);
  // declarations: precedence and token directives
  map<string, pair<int, char>> prec; set<string> declared; int level = 0;
  { string d; for (size_t i = 0; i < decl.size();) { // drop comments, %{ %}, { } blocks
      if (decl.compare(i, 2, "/*") == 0) { i = decl.find("*/", i + 2) + 2; d += ' '; continue; }
      if (decl.compare(i, 2, "%{") == 0) { i = decl.find("%}", i + 2) + 2; continue; }
      if (decl[i] == '{') { int k = 0; do { if (decl[i] == '{') k++; if (decl[i] == '}') k--; i++; } while (k); continue; }
      if (decl[i] == '\'' && decl[i + 2] == '\'') { d += decl.substr(i, 3); i += 3; continue; }
      d += decl[i++]; }
    std::stringstream ss(d); string w, mode; while (ss >> w) {
      if (w[0] == '%') { mode = w; size_t eq = mode.find('='); if (eq != string::npos) mode = mode.substr(0, eq); if (mode == "%left" || mode == "%right" || mode == "%nonassoc" || mode == "%precedence") level++; continue; }
      if (w[0] == '<') { if (w.find('>') == string::npos) while (ss >> w && w.find('>') == string::npos); continue; }
      if (w[0] == '"') continue;
      if (mode == "%left") prec[w] = {level, 'l'}; else if (mode == "%right") prec[w] = {level, 'r'}; else if (mode == "%nonassoc") prec[w] = {level, 'n'}; else if (mode == "%precedence") prec[w] = {level, 'p'};
      else if (mode == "%token") declared.insert(w); else if (mode == "%start") die("%start is not supported");
    } }
  // rules
  vector<Tok> t = lexRules(rules); vector<Rule> R; vector<string> lhsOrder; string startName;
  { // left-hand sides first
    set<string> nts; for (size_t i = 0; i + 1 < t.size(); i++) if (t[i].k == Tok::ID && t[i + 1].k == Tok::COLON) { if (nts.insert(t[i].s).second) lhsOrder.push_back(t[i].s); }
    startName = lhsOrder[0];
    vector<pair<int, vector<Tok>>> raw; size_t i = 0; struct RR { string lhs; vector<string> rhs; string prec; }; vector<RR> rr;
    while (t[i].k != Tok::END) {
      if (t[i].k == Tok::SEMI) { i++; continue; }
      if (t[i].k != Tok::ID || t[i + 1].k != Tok::COLON) die("expected a rule at " + t[i].s);
      string lhs = t[i].s; i += 2; RR cur{lhs, {}, ""};
      bool act = false;
      for (;; i++) { bool endRule = t[i].k == Tok::SEMI || t[i].k == Tok::END || (t[i].k == Tok::ID && t[i + 1].k == Tok::COLON);
        if (endRule) { rr.push_back(cur); break; }
        if (t[i].k == Tok::BAR) { rr.push_back(cur); cur = RR{lhs, {}, ""}; act = false; continue; }
        if (t[i].k == Tok::ACTION) { act = true; continue; }
        if (t[i].k == Tok::EMPTY) continue;
        if (t[i].k == Tok::PREC) { i++; cur.prec = t[i].k == Tok::LIT ? "'" + t[i].s + "'" : t[i].s; continue; }
        if (act) die("mid-rule action in " + lhs);
        if (t[i].k == Tok::ID) cur.rhs.push_back(t[i].s); else if (t[i].k == Tok::LIT) cur.rhs.push_back("'" + t[i].s + "'"); else die("unexpected token in " + lhs); }
    }
    // symbols: $end, terminals (sorted), nonterminals in order
    set<string> terms; for (auto &r : rr) for (auto &s : r.rhs) if (!nts.count(s)) terms.insert(s); for (auto &p : prec) terms.insert(p.first);
    sym("$end"); for (auto &s : terms) sym(s); int nt0 = symName.size(); for (auto &s : lhsOrder) sym(s); sym("$accept");
    isTerm.assign(symName.size(), false); for (int k = 0; k < nt0; k++) isTerm[k] = true;
    for (auto &r : rr) { Rule x; x.lhs = sym(r.lhs); for (auto &s : r.rhs) x.rhs.push_back(sym(s)); x.prec = -1; if (!r.prec.empty()) { if (!symId.count(r.prec)) die("%prec " + r.prec); x.prec = sym(r.prec); } else for (int s : x.rhs) if (isTerm[s]) x.prec = s; R.push_back(x); }
  }
  int NS = symName.size(), NT = 0; while (NT < NS && isTerm[NT]) NT++; int accept = NS - 1; int NR = R.size(); R.push_back({accept, {sym(startName)}, -1});
  vector<pair<int, char>> sp(NS, {0, 0}); for (auto &p : prec) sp[sym(p.first)] = p.second;
  vector<vector<int>> byLhs(NS); for (size_t r = 0; r < R.size(); r++) byLhs[R[r].lhs].push_back(r);
  vector<bool> nullable(NS, false); for (bool ch = true; ch;) { ch = false; for (auto &r : R) if (!nullable[r.lhs]) { bool a = true; for (int s : r.rhs) if (!nullable[s]) { a = false; break; } if (a) { nullable[r.lhs] = true; ch = true; } } }
  // nonterminals reachable at the left edge, for closures
  vector<vector<int>> clos(NS); for (int s = NT; s < NS; s++) { set<int> seen{s}; std::deque<int> q{s}; while (!q.empty()) { int x = q.front(); q.pop_front(); for (int r : byLhs[x]) if (!R[r].rhs.empty() && !isTerm[R[r].rhs[0]] && seen.insert(R[r].rhs[0]).second) q.push_back(R[r].rhs[0]); } clos[s].assign(seen.begin(), seen.end()); }
  // LR(0)
  typedef pair<int, int> Item; vector<vector<Item>> kern; map<vector<Item>, int> idx; vector<map<int, int>> go; vector<vector<int>> redRules;
  auto add = [&](vector<Item> k) { std::sort(k.begin(), k.end()); auto it = idx.find(k); if (it != idx.end()) return it->second; int id = kern.size(); idx[k] = id; kern.push_back(k); go.emplace_back(); redRules.emplace_back(); return id; };
  add({{NR, 0}});
  for (size_t s = 0; s < kern.size(); s++) {
    map<int, vector<Item>> nx; set<int> nts; auto k = kern[s];
    auto item = [&](int r, int d) { if (d == (int)R[r].rhs.size()) redRules[s].push_back(r); else nx[R[r].rhs[d]].push_back({r, d + 1}); };
    for (auto &it : k) { item(it.first, it.second); if (it.second < (int)R[it.first].rhs.size()) { int x = R[it.first].rhs[it.second]; if (!isTerm[x]) for (int y : clos[x]) nts.insert(y); } }
    for (int y : nts) for (int r : byLhs[y]) item(r, 0);
    for (auto &p : nx) { int q = add(p.second); go[s][p.first] = q; }
  }
  int S = kern.size();
  // DeRemer/Pennello
  struct NTT { int p, A; }; vector<NTT> tr; map<pair<int, int>, int> trId; for (int s = 0; s < S; s++) for (auto &e : go[s]) if (!isTerm[e.first]) { trId[{s, e.first}] = tr.size(); tr.push_back({s, e.first}); }
  int T = tr.size(), W = (NT + 63) / 64; typedef vector<uint64_t> Bits; vector<Bits> F(T, Bits(W, 0)); vector<vector<int>> reads(T), includes(T); map<pair<int, int>, vector<int>> lookback;
  for (int i = 0; i < T; i++) { int q = go[tr[i].p][tr[i].A]; for (auto &e : go[q]) { if (isTerm[e.first]) F[i][e.first / 64] |= 1ull << (e.first % 64); else if (nullable[e.first]) reads[i].push_back(trId[{q, e.first}]); } if (tr[i].p == 0 && tr[i].A == R[NR].rhs[0]) F[i][0] |= 1; }
  for (int i = 0; i < T; i++) for (int r : byLhs[tr[i].A]) { int q = tr[i].p; auto &rhs = R[r].rhs; for (size_t d = 0; d < rhs.size(); d++) { if (!isTerm[rhs[d]]) { bool nl = true; for (size_t k = d + 1; k < rhs.size(); k++) if (!nullable[rhs[k]]) { nl = false; break; } if (nl) includes[trId[{q, rhs[d]}]].push_back(i); } q = go[q][rhs[d]]; } lookback[{q, r}].push_back(i); }
  auto digraph = [&](vector<vector<int>> &rel) { vector<int> N(T, 0), st; std::function<void(int)> trav = [&](int x) { st.push_back(x); int d = st.size(); N[x] = d; for (int y : rel[x]) { if (!N[y]) trav(y); N[x] = std::min(N[x], N[y]); for (int w = 0; w < W; w++) F[x][w] |= F[y][w]; } if (N[x] == d) for (;;) { int y = st.back(); st.pop_back(); N[y] = 1 << 30; if (y == x) break; F[y] = F[x]; } }; for (int x = 0; x < T; x++) if (!N[x]) trav(x); };
  digraph(reads); digraph(includes);
  // actions: >0 shift s+1, <0 reduce -(r+1), 0 accept, 0x7fff error
  const int16_t ERR = 0x7fff; vector<vector<int16_t>> act(S, vector<int16_t>(NT, ERR)); int sr = 0, rrc = 0, resolved = 0;
  for (int s = 0; s < S; s++) {
    for (auto &e : go[s]) if (isTerm[e.first]) act[s][e.first] = e.second + 1;
    vector<Bits> la; vector<bool> denied(NT, false); std::sort(redRules[s].begin(), redRules[s].end()); Bits seen(W, 0);
    for (int r : redRules[s]) { Bits b(W, 0); if (r == NR) b[0] = 1; else for (int i : lookback[{s, r}]) for (int w = 0; w < W; w++) b[w] |= F[i][w];
      for (int a = 0; a < NT; a++) if (b[a / 64] >> (a % 64) & 1) { int16_t red = r == NR ? 0 : -(r + 1);
          bool canShift = go[s].count(a); if (canShift && act[s][a] > 0) { int pr = R[r].prec < 0 ? 0 : sp[R[r].prec].first, pt = sp[a].first; if (pr && pt) { resolved++; if (pr > pt) act[s][a] = red; else if (pr == pt) { char k = sp[a].second; if (k == 'l') act[s][a] = red; else if (k == 'n') { act[s][a] = ERR; denied[a] = true; } } } else sr++; }
          else if (denied[a]) {} else if (act[s][a] == ERR) act[s][a] = red; else { rrc++; } } }
  }
  // output
  vector<int> order;
  int NN = NS - NT; FILE *f = fopen((out + "/tables.bin").c_str(), "wb"); if (!f) die("cannot write"); auto w16 = [&](int v) { int16_t x = v; fwrite(&x, 2, 1, f); };
  // rows are cut into blocks of 64 entries, equal blocks are shared
  vector<vector<int16_t>> blocks; map<vector<int16_t>, int> blockId; auto cut = [&](const vector<int16_t> &row, int fill, vector<int> &o) { for (size_t i = 0; i < row.size(); i += 64) { vector<int16_t> b(row.begin() + i, row.begin() + std::min(row.size(), i + 64)); b.resize(64, fill); auto it = blockId.emplace(b, (int)blocks.size()); if (it.second) blocks.push_back(b); o.push_back(it.first->second); } };
  vector<int> ai, gi; for (int s = 0; s < S; s++) { cut(act[s], ERR, ai); vector<int16_t> v(NN, -1); for (auto &e : go[s]) if (!isTerm[e.first]) v[e.first - NT] = e.second; cut(v, -1, gi); }
  // header (16 x i16), block indices of the action and goto rows, rules (lhs, len), blocks
  if (blocks.size() > 65535) die("too many blocks"); int hdr[16] = {S, NT, NN, NR, (NT + 63) / 64, (NN + 63) / 64, (int)blocks.size()}; for (int i = 0; i < 16; i++) w16(hdr[i]);
  for (int x : ai) w16(x); for (int x : gi) w16(x); for (int r = 0; r < NR; r++) { w16(R[r].lhs - NT); w16(R[r].rhs.size()); }
  for (auto &r : blocks) fwrite(r.data(), 2, 64, f); fclose(f);
  // a path to every state: its predecessor and the symbol between them
  { vector<pair<int, int>> span(S, {-1, 0}); span[0] = {0, 0}; std::deque<int> q{0}; while (!q.empty()) { int s = q.front(); q.pop_front();
      auto visit = [&](int t, int x) { if (span[t].first < 0) { span[t] = {s, x}; q.push_back(t); } }; for (int a = 0; a < NT; a++) if (act[s][a] > 0 && act[s][a] != ERR) visit(act[s][a] - 1, a);
      for (auto &e : go[s]) if (!isTerm[e.first]) visit(e.second, e.first); order.push_back(s); }
    f = fopen((out + "/span.rs").c_str(), "w"); fprintf(f, "/// state, predecessor, symbol (nonterminals after the terminals), in an order with predecessors first\npub static SPAN: &[(u16, u16, u16)] = &["); for (int s : order) if (s) fprintf(f, "(%d,%d,%d),", s, span[s].first, span[s].second); fprintf(f, "];\n"); fclose(f); }
  if (argc > 4) { f = fopen(argv[4], "w"); for (int s = 0; s < S; s++) { for (int a = 0; a < NT; a++) if (act[s][a] != ERR) fprintf(f, "%d %s %d\n", s, symName[a].c_str(), act[s][a]); for (auto &e : go[s]) if (!isTerm[e.first]) fprintf(f, "%d %s G%d\n", s, symName[e.first].c_str(), e.second); } fclose(f); }
  // names
  f = fopen((out + "/names.rs").c_str(), "w");
  auto esc = [](const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; };
  fprintf(f, "pub const NSTATES: usize = %d; pub const NTERM: usize = %d; pub const NNONTERM: usize = %d; pub const NRULES: usize = %d; pub const ABLK: usize = %d; pub const GBLK: usize = %d;\n", S, NT, NN, NR, (NT + 63) / 64, (NN + 63) / 64);
  fprintf(f, "pub const TERMINALS: [&str; %d] = [", NT); for (int i = 0; i < NT; i++) fprintf(f, "\"%s\",", esc(symName[i]).c_str()); fprintf(f, "];\n");
  fprintf(f, "pub const NONTERMINALS: [&str; %d] = [", NN); for (int i = NT; i < NS; i++) fprintf(f, "\"%s\",", esc(symName[i]).c_str()); fprintf(f, "];\n");
  fprintf(f, "pub const TERMINAL_KINDS: [SyntaxKind; %d] = [", NT); for (int i = 0; i < NT; i++) fprintf(f, "SyntaxKind::%s,", kindName(symName[i]).c_str()); fprintf(f, "];\n");
  fprintf(f, "pub const NONTERMINAL_KINDS: [SyntaxKind; %d] = [", NN); for (int i = NT; i < NS; i++) fprintf(f, "SyntaxKind::%s,", kindName(symName[i]).c_str()); fprintf(f, "];\n");
  { string k = readFile(argv[2]); vector<pair<string, string>> kw; size_t i = 0; while ((i = k.find("PG_KEYWORD(\"", i)) != string::npos) { size_t b = i + 12, e = k.find('"', b), c = k.find(',', e), d = k.find(',', c + 1); string nm = k.substr(c + 1, d - c - 1); nm.erase(std::remove_if(nm.begin(), nm.end(), ::isspace), nm.end()); kw.push_back({k.substr(b, e - b), nm}); i = d; }
    fprintf(f, "pub const KEYWORDS: [(&str, &str, u16); %zu] = [", kw.size()); for (auto &p : kw) fprintf(f, "(\"%s\",\"%s\",%d),", p.first.c_str(), p.second.c_str(), symId.count(p.second) ? symId[p.second] : 0xffff); fprintf(f, "];\n"); }
  for (const char *n : {"IDENT", "SCONST", "BCONST", "XCONST", "ICONST", "FCONST", "PARAM", "Op", "TYPECAST", "DOT_DOT", "COLON_EQUALS", "EQUALS_GREATER", "LESS_EQUALS", "GREATER_EQUALS", "NOT_EQUALS", "NOT_LA", "NULLS_LA", "WITH_LA", "WITHOUT_LA", "FORMAT_LA"}) { string u = n; for (auto &c : u) c = toupper(c); fprintf(f, "pub const T_%s: u16 = %d;\n", u.c_str(), symId.count(n) ? symId[n] : 0xffff); }
  fprintf(f, "pub fn char_terminal(c: u8) -> u16 { match c {"); for (int i = 0; i < NT; i++) if (symName[i].size() == 3 && symName[i][0] == '\'') fprintf(f, " %d => %d,", (int)symName[i][1], i); fprintf(f, " _ => 0xffff } }\n"); fclose(f);
  // a shortest sentence through every production
  { const long INF = 1 << 28; vector<long> cost(NS, INF); vector<int> best(NS, -1); for (int i = 0; i < NT; i++) cost[i] = 1; for (bool ch = true; ch;) { ch = false; for (size_t r = 0; r < R.size(); r++) { long c = 1; for (int s : R[r].rhs) c += cost[s]; if (c < cost[R[r].lhs]) { cost[R[r].lhs] = c; best[R[r].lhs] = r; ch = true; } } }
    std::function<void(int, vector<int> &)> expand = [&](int s, vector<int> &o) { if (isTerm[s]) { o.push_back(s); return; } for (int x : R[best[s]].rhs) expand(x, o); };
    // cheapest context of every nonterminal: parent rule and position
    vector<long> ctx(NS, INF); vector<pair<int, int>> par(NS, {-1, -1}); ctx[R[NR].lhs] = 0; for (bool ch = true; ch;) { ch = false; for (size_t r = 0; r < R.size(); r++) if (ctx[R[r].lhs] < INF) for (size_t d = 0; d < R[r].rhs.size(); d++) { int s = R[r].rhs[d]; if (isTerm[s]) continue; long c = ctx[R[r].lhs] + 1; for (size_t k = 0; k < R[r].rhs.size(); k++) if (k != d) c += cost[R[r].rhs[k]]; if (c < ctx[s]) { ctx[s] = c; par[s] = {(int)r, (int)d}; ch = true; } } }
    f = fopen((out + "/sentences.rs").c_str(), "w"); fprintf(f, "pub static SENTENCES: &[(u16, &[u16])] = &[\n");
    for (int r = 0; r < NR; r++) { if (ctx[R[r].lhs] >= INF) continue; vector<int> mid; for (int s : R[r].rhs) expand(s, mid); int x = R[r].lhs; while (x != accept) { auto pr = par[x]; vector<int> o; for (int k = 0; k < pr.second; k++) expand(R[pr.first].rhs[k], o); o.insert(o.end(), mid.begin(), mid.end()); for (size_t k = pr.second + 1; k < R[pr.first].rhs.size(); k++) expand(R[pr.first].rhs[k], o); mid = o; x = R[pr.first].lhs; }
      bool ok = true; for (int s : mid) if (symName[s].compare(0, 5, "MODE_") == 0) ok = false; if (!ok) continue; fprintf(f, "(%d,&[", r); for (int s : mid) fprintf(f, "%d,", s); fprintf(f, "]),\n"); } fprintf(f, "];\n"); fclose(f); }
  f = fopen((out + "/summary.json").c_str(), "w"); fprintf(f, "{\"states\":%d,\"terminals\":%d,\"nonterminals\":%d,\"rules\":%d,\"blocks\":%zu,\"nt_transitions\":%d,\"sr_unresolved\":%d,\"rr_conflicts\":%d,\"resolved_by_precedence\":%d}\n", S, NT, NN, NR, blocks.size(), T, sr, rrc, resolved); fclose(f);
  return 0;
}
