// C22: gdxdump writes exactly the content of a file as text, in every format.
// The text is read back by an independent parser of the GAMS data statement and CSV formats and compared with what was written to the file.
#include "tool.h"
#include <map>
static const char *LB[] = { "a", "it's", "two words", "q\"q", "x,y", "\"\"z\"" };
static const char *TX[] = { "", "one", "two words", "it's", "'q'", "a\"b", "x/y", "s;t", "n*m" };
static const char *ST[] = { "", "plain text", "(in brackets)", "with 'quotes'", "a, b / c;", "= $x" };
struct R { std::vector<std::string> k; double v[5]; std::string txt; };
struct S { std::string name, text; int typ, dim, sub; std::vector<R> r; std::vector<std::string> dom, comment; std::string alias; };
typedef std::vector<S> Fl;
static double defv(const S &s, int i) { if (s.typ == GMS_DT_VAR) return gmsDefRecVar[s.sub][i]; if (s.typ == GMS_DT_EQU) return gmsDefRecEqu[s.sub - GMS_EQU_USERINFO_BASE][i]; return 0; }
static std::vector<std::string> ACR;                              // names of the acronyms 1, 2 ..
static void build(const char *fn, const Fl &f, int cmp = 0) {
   Sess w; w.openW(fn, cmp); for (size_t i = 0; i < ACR.size(); i++) A(w->gdxAcronymAdd(ACR[i].c_str(), i ? "acronym text" : "", (int) i + 1) >= 0, "acronym");
   for (auto &s : f) {
      int nr; if (!s.alias.empty()) { A(w->gdxAddAlias(s.alias.c_str(), s.name.c_str()), "alias"); continue; }
      A(w->gdxDataWriteStrStart(s.name.c_str(), s.text.c_str(), s.dim, s.typ, s.sub), "start");
      A(w->gdxFindSymbol(s.name.c_str(), nr), "find"); if (!s.dom.empty()) { const char *d[20]; for (int i = 0; i < s.dim; i++) d[i] = s.dom[i].c_str(); A(w->gdxSymbolSetDomain(d), "domain"); }
      for (auto &q : s.r) { const char *k[20]; for (int d = 0; d < s.dim; d++) k[d] = q.k[d].c_str(); double v[5]; memcpy(v, q.v, sizeof v);
         if (s.typ == GMS_DT_SET) { int nd = 0; if (!q.txt.empty()) A(w->gdxAddSetText(q.txt.c_str(), nd), "text"); v[0] = nd; }
         A(w->gdxDataWriteStr(k, v), "record"); }
      A(w->gdxDataWriteDone(), "done"); for (auto &c : s.comment) A(w->gdxSymbolAddComment(nr, c.c_str()), "comment");
   }
   w.close();
}
static std::map<std::string, std::string> SVT;                    // strings for special values by default name
static std::string sv(const char *n) { auto i = SVT.find(n); return i == SVT.end() ? n : i->second; }
static std::string num(double v) { static const double V[] = { 1, 1.5, -2, 0.0625, 100 }; static const char *T[] = { "1", "1.5", "-2", "0.0625", "100" }; for (int i = 0; i < 5; i++) if (bitsOf(v) == bitsOf(V[i])) return T[i]; return "?"; }
static std::string vstr(double v, bool hex, char dec = '.') {
   u64 b = bitsOf(v); if (b == B_UNDEF) return sv("Undf"); if (b == B_NA) return sv("NA"); if (b == B_PINF) return sv("+Inf"); if (b == B_MINF) return sv("-Inf"); if (b == B_EPS) return sv("Eps");
   for (size_t i = 0; i < ACR.size(); i++) if (v == GMS_SV_ACR * (double) (i + 1)) return ACR[i];
   if (b == 0) { auto i = SVT.find("0"); if (i != SVT.end()) return i->second; if (!hex) return "0"; }
   if (hex) { static const char *H = "0123456789abcdef"; std::string s = "0x"; for (int i = 60; i >= 0; i -= 4) s += H[(b >> i) & 15]; return s; }
   std::string s = num(v); for (auto &c : s) if (c == '.') c = dec; return s;
}
static double pick(const char *n, long kinds) {
   static const double V[] = { 1.5, 0.0, GMS_SV_EPS, GMS_SV_PINF, -2.0, GMS_SV_NA, GMS_SV_MINF, GMS_SV_UNDEF, GMS_SV_ACR, GMS_SV_ACR * 2, 0.0625, 1.0, 100 };
   if (!kinds) return symV(n); return V[symx_choice((unsigned) kinds, n)];
}
// ---- parser of GAMS data statements
struct Lex {
   std::string s; size_t p = 0; explicit Lex(const std::string &t) : s(t) {}
   std::vector<std::string> comments;
   bool end() const { return p >= s.size(); }
   void ws() { while (!end() && (s[p] == ' ' || s[p] == '\n')) p++; }
   bool is(char c) { ws(); return !end() && s[p] == c; }
   bool eat(char c) { if (is(c)) { p++; return true; } return false; }
   void need(char c, const char *m) { A(eat(c), m); }
   std::string word(const char *stop) { ws(); std::string r; while (!end() && !strchr(stop, s[p])) r += s[p++]; return r; }
   std::string quoted() { ws(); A(!end() && (s[p] == '\'' || s[p] == '"'), "labels are quoted"); char q = s[p++]; std::string r; while (!end() && s[p] != q) r += s[p++]; A(!end(), "quotes are closed"); p++; return r; }
   std::string text(const char *stop) { ws(); if (!end() && (s[p] == '\'' || s[p] == '"')) return quoted(); std::string r = word(stop); while (!r.empty() && (r.back() == ' ' || r.back() == '\n')) r.pop_back(); return r; }
   void lines() { for (;;) { ws(); bool bol = p == 0 || s[p - 1] == '\n'; if (!end() && bol && (s[p] == '$' || s[p] == '*')) { std::string l; while (!end() && s[p] != '\n') l += s[p++]; if (l[0] == '*') comments.push_back(l.substr(2)); } else return; } }
};
static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static const char *FLD[] = { "L", "M", "LO", "UP", "SCALE" };
struct Opt { bool filter = true, hex = false, nodata = false, nohdr = false; char delim = '.', dec = '.'; };
static void parseSymbol(Lex &x, const S &s, const Opt &o) {
   static const char *KW[] = { "set", "parameter", "variable", "equation", "alias" }; static const char *VT[] = { "", "binary", "integer", "positive", "negative", "free", "sos1", "sos2", "semicont", "semiint" };
   bool ve = s.typ == GMS_DT_VAR || s.typ == GMS_DT_EQU, scalar = !s.dim && s.typ == GMS_DT_PAR; x.comments.clear();
   if (!o.nohdr) {
      x.lines(); std::string w = lower(x.word(" (\n"));
      if (!s.alias.empty()) { A(w == "alias", "an alias is shown as such"); x.need('(', "("); std::string a = x.word(" ,)"); x.need(',', ","); std::string b = x.word(" ,)"); x.need(')', ")"); x.need(';', ";"); A(a == s.name && b == s.alias, "alias with the names of both sets"); return; }
      std::string sub = s.typ == GMS_DT_VAR ? VT[s.sub] : s.typ == GMS_DT_EQU && s.sub == GMS_EQU_USERINFO_BASE + GMS_EQUTYPE_B ? "logic" : s.typ == GMS_DT_SET && s.sub == GMS_SETTYPE_SINGLETON ? "singleton" : "";
      if (!sub.empty()) { A(w == sub, "the subtype of a symbol is shown"); w = lower(x.word(" (\n")); }
      A(w == (scalar ? "scalar" : KW[s.typ]), "the type of a symbol is shown"); A(x.word(" (\n") == s.name, "symbols are shown in order with their names");
      if (s.dim) { x.need('(', "domain list"); for (int d = 0; d < s.dim; d++) { A(x.word(" ,)") == (s.dom.empty() ? std::string("*") : s.dom[d]), "the domains are shown"); x.need(d < s.dim - 1 ? ',' : ')', "domain list"); } }
      while (!x.end() && x.s[x.p] == ' ') x.p++; std::string tx = x.end() || x.s[x.p] == '\n' || x.is('/') || x.is(';') ? "" : x.text("/;\n"); A(tx == s.text, "the explanatory text is shown");
      if (o.nodata) { { x.ws(); std::vector<std::string> cm; while (!x.end() && x.s[x.p] == '*' && x.s[x.p - 1] == '\n') { cm.push_back(x.word("\n").substr(2)); x.ws(); } A(cm == s.comment, "the comments of a symbol"); } x.need(';', ";"); if (x.is('!')) x.word("\n"); x.ws(); std::string l = x.word("\n"); A(l.substr(0, 8) == "$loadDC " && l.substr(8, s.name.size()) == s.name, "the data are to be loaded from the file"); return; }
      x.need('/', "data of the symbol");
   }
   if (o.nodata) return;
   std::vector<const R *> ex; for (auto &q : s.r) ex.push_back(&q);
   bool first = true; auto sep = [&]() { if (!first) x.need(',', "records are separated"); first = false; x.lines(); };
   if (scalar) { x.lines(); std::string v = x.word(" ,/\n"); if (s.r.empty()) A(v == "0.0" || v == "0", "an empty scalar is zero"); else A(v == vstr(s.r[0].v[0], o.hex, o.dec), "the value of a scalar"); }
   else for (auto *q : ex) for (int i = 0; i < nVals(s.typ); i++) {
      if (s.typ != GMS_DT_SET && o.filter && q->v[i] == defv(s, i) && !(s.typ == GMS_DT_EQU && (i == GMS_VAL_LOWER || i == GMS_VAL_UPPER))) continue;
      sep(); for (int d = 0; d < s.dim; d++) { A(x.quoted() == q->k[d], "the labels of a record"); if (d < s.dim - 1 || ve) { if (o.delim == ' ') A(x.s[x.p++] == ' ', "delimiter"); else x.need(o.delim, "delimiter"); } }
      if (s.typ == GMS_DT_SET) { std::string t = x.is(',') || x.is('/') ? "" : x.text(",/;\n"); A(t == q->txt, "the text of an element"); }
      else { if (ve) A(x.word(" ") == FLD[i], "the field of a value"); A(x.word(o.dec == ',' ? " /\n" : " ,/\n") == vstr(q->v[i], o.hex, o.dec) , "the value of a record"); }
   }
   if (!o.nohdr) { x.lines(); x.need('/', "the end of the data"); x.need(';', "the end of the statement"); x.lines(); }
   A(x.comments.size() == s.comment.size(), "the comments of a symbol"); for (size_t i = 0; i < s.comment.size(); i++) A(x.comments[i] == s.comment[i], "each comment"); x.comments.clear();
}
static void parseAcronyms(Lex &x) { for (size_t i = 0; i < ACR.size(); i++) { A(x.word(" ") == "Acronym", "acronyms are declared"); A(x.word(" ;") == ACR[i], "with their names"); if (i) A(x.text(";") == "acronym text", "with their text"); x.need(';', ";"); } }
static S mks(const char *name, int typ, int dim, int nl, long kinds, int fld, int sub) {
   S s { name, "", typ, dim, sub, {}, {}, {}, "" }; int tot = 1; for (int d = 0; d < dim; d++) tot *= nl;
   for (int c = 0; c < tot; c++) { std::string t = "r" + std::to_string(c); if (dim && !symx_choice(2, (t + "in").c_str())) continue; R q; q.k.resize(dim); int x = c; for (int d = dim; d-- > 0;) { q.k[d] = LB[x % nl + P("lab", 0)]; x /= nl; }
      for (int i = 0; i < 5; i++) q.v[i] = typ == GMS_DT_VAR || typ == GMS_DT_EQU ? defv(s, i) : 0; if (typ == GMS_DT_SET) q.txt = TX[kinds > 1 ? symx_choice((unsigned) kinds, (t + "txt").c_str()) : 0]; else q.v[fld] = pick((t + "v").c_str(), kinds); s.r.push_back(q); }
   return s;
}
static std::string dn(char c) { return c == ',' ? "comma" : c == ';' ? "semicolon" : c == ' ' ? "blank" : c == '\t' ? "tab" : "period"; }
static int subOf(int typ) { return (int) P("sub", typ == GMS_DT_VAR ? GMS_VARTYPE_POSITIVE : typ == GMS_DT_EQU ? GMS_EQU_USERINFO_BASE : 0); }
static void svopts(std::vector<std::string> &args) {
   SVT.clear(); if (!P("svout", 0)) return; static const char *N[] = { "Eps", "NA", "+Inf", "-Inf", "Undf", "0" }; static const char *O[] = { "EpsOut", "NaOut", "PinfOut", "MinfOut", "UndfOut", "ZeroOut" };
   for (int i = 0; i < 6; i++) { std::string v = "v" + std::to_string(i); SVT[N[i]] = v; args.push_back(std::string(O[i]) + "=" + v); }
}
// the default format
ENTRY(c22_normal) {
   int typ = (int) P("typ", GMS_DT_PAR), dim = (int) P("dim", 1); long kinds = P("kinds", 4), txt = P("txt", 0); Opt o; std::vector<std::string> args = { "f.gdx" }; if (P("acr", 0)) ACR = { "alpha", "beta" }; else ACR.clear();
   S s = mks("Sym", typ, dim, (int) P("nl", 2), kinds, (int) P("fld", 0), subOf(typ)); if (txt) s.text = ST[symx_choice(6, "text")]; if (P("comm", 0)) for (int i = (int) symx_choice(3, "comments"); i-- > 0;) s.comment.push_back("comment " + std::to_string(i));
   S i { "i", "", GMS_DT_SET, 1, 0, {}, {}, {}, "" }; for (int j = 0; j < 2; j++) { R q; for (double &v : q.v) v = 0; q.k = { LB[j] }; i.r.push_back(q); }
   Fl f; if (!P("single", 0)) f.push_back(i); if (P("dom", 0) && dim) for (int d = 0; d < dim; d++) s.dom.push_back("i"); f.push_back(s); if (P("alias", 0)) { S a { "ali", "", GMS_DT_ALIAS, 1, 0, {}, {}, {}, "i" }; f.push_back(a); }
   build("f.gdx", f, (int) P("cmp", 0));
   if (!P("filter", 1)) { o.filter = false; args.push_back("FilterDef=N"); } if (P("hex", 0)) { o.hex = true; args.push_back("dFormat=hexBytes"); } if (P("nodata", 0)) { o.nodata = true; args.push_back("NoData"); }
   if (P("delim", 0)) { o.delim = (char) P("delim", 0); args.push_back("Delim=" + dn(o.delim)); } if (P("dec", 0)) { o.dec = ','; args.push_back("DecimalSep=comma"); } svopts(args);
   bool one = P("one", 0); if (one) { args.push_back("Symb=sYm"); if (P("nohdr", 0)) { o.nohdr = true; args.push_back("NoHeader"); } }
   std::string outp; if (P("out", 0)) args.push_back("Output=res.txt");
   ToolRun t = runTool(args); A(t.rc == 0, "gdxdump succeeds"); outp = t.out; if (P("out", 0)) { vfs_import("res.txt"); A(vfs_exists("res.txt") && t.out.empty(), "the output is in the file"); auto b = fileBytes("res.txt"); outp.assign(b.begin(), b.end()); }
   Lex x(outp); x.lines(); if (!ACR.empty()) parseAcronyms(x); if (o.nodata) x.lines();
   if (one) parseSymbol(x, s, o); else for (auto &q : f) parseSymbol(x, q, o);
   x.lines(); A(x.end(), "nothing else is written"); symx_cover("end");
}
// levels and marginals as assignments
ENTRY(c22_bas) {
   int typ = (int) P("typ", GMS_DT_VAR), dim = (int) P("dim", 1); ACR.clear(); SVT.clear(); S s = mks("Sym", typ, dim, (int) P("nl", 2), P("kinds", 3), (int) P("fld", 0), subOf(typ)); S i { "i", "", GMS_DT_SET, 1, 0, {}, {}, {}, "" }; for (int j = 0; j < 5; j++) { R q; for (double &v : q.v) v = 0; q.k = { LB[j] }; i.r.push_back(q); } Fl f = { i, mks("p", GMS_DT_PAR, 0, 1, 1, 0, 0), s }; build("f.gdx", f);
   ToolRun t = runTool({ "f.gdx", "Format=gamsbas" }); A(t.rc == 0, "gdxdump succeeds"); Lex x(t.out); int n = 0;
   for (auto &q : s.r) for (int i = 0; i < 2; i++) { if ((typ == GMS_DT_EQU && i == 0) || q.v[i] == defv(s, i)) continue; x.lines(); while (x.eat(';')) x.lines(); A(x.word(" (") == std::string("Sym.") + FLD[i], "the field to be assigned"); if (dim) { x.need('(', "("); for (int d = 0; d < dim; d++) { A(x.quoted() == q.k[d], "the labels of a record"); if (d < dim - 1) A(x.eat('.') || x.eat(','), "delimiter"); } x.need(')', ")"); } x.need('=', "="); A(x.word(" ;\n") == vstr(q.v[i], false), "the value"); n++; }
   x.lines(); while (x.eat(';')) x.lines(); A(x.end(), "nothing else is written"); if (n) symx_cover("items"); symx_cover("end");
}
// ---- CSV
static std::vector<std::vector<std::string>> csv(const std::string &s, char delim) {
   std::vector<std::vector<std::string>> r; size_t p = 0;
   while (p < s.size()) { std::vector<std::string> row(1); while (p < s.size() && s[p] != '\n') { if (s[p] == delim) { row.emplace_back(); p++; } else if (s[p] == '"' && row.back().empty() && delim != '\t') { p++; for (;;) { A(p < s.size(), "quotes are closed"); if (s[p] == '"') { if (p + 1 < s.size() && s[p + 1] == '"') { row.back() += '"'; p += 2; continue; } p++; break; } row.back() += s[p++]; } A(p >= s.size() || s[p] == '\n' || s[p] == delim, "a quoted field ends at the delimiter"); } else row.back() += s[p++]; }
      p++; r.push_back(row); }
   return r;
}
ENTRY(c22_csv) {
   int typ = (int) P("typ", GMS_DT_PAR), dim = (int) P("dim", 1); long kinds = P("kinds", 3); if (P("acr", 0)) ACR = { "alpha", "beta" }; else ACR.clear(); char delim = P("delim", 0) ? (char) P("delim", 0) : ','; bool full = P("full", 0), stext = P("stext", 0), cdim = P("cdim", 0) && dim > 1, nohdr = P("nohdr", 0), hex = P("hex", 0); std::vector<std::string> args = { "f", "Symb=SYM", "format=csv" };
   S s = mks("Sym", typ, dim, (int) P("nl", 2), kinds, (int) P("fld", 0), subOf(typ)); bool isset = typ == GMS_DT_SET, ve = typ == GMS_DT_VAR || typ == GMS_DT_EQU; S i { "i", "", GMS_DT_SET, 1, 0, {}, {}, {}, "" }, j = i; j.name = "j"; for (int q = 0; q < (P("lab", 0) ? 6 : 3); q++) { R r; for (double &v : r.v) v = 0; r.k = { LB[q] }; i.r.push_back(r); j.r.push_back(r); }
   std::vector<std::string> head; if (P("dom", 0)) for (int d = 0; d < dim; d++) { static const char *D[] = { "i", "j", "*" }; s.dom.push_back(D[symx_choice(3, "domain")]); }
   Fl f = { i, j, s }; if (P("alias", 0)) { f.push_back(S { "zali", "", GMS_DT_ALIAS, dim, 0, {}, {}, {}, "Sym" }); args[1] = "Symb=zali"; } build("f.gdx", f, (int) P("cmp", 0));
   if (P("delim", 0)) args.push_back("delim=" + dn(delim)); if (full) args.push_back("CSVAllFields"); if (stext) args.push_back("CSVSetText"); if (P("cdim", 0)) args.push_back("CDim=Y"); if (nohdr) args.push_back("NoHeader"); if (hex) args.push_back("dFormat=hexbytes"); svopts(args); if (P("header", 0)) args.push_back("Header=some new header");
   char dec = '.'; if (P("dec", 0)) { dec = ','; args.push_back("DecimalSep=comma"); }
   ToolRun t = runTool(args); A(t.rc == 0, "gdxdump succeeds"); auto rows = csv(t.out, delim); size_t p = 0;
   std::vector<std::string> cols; if (cdim) for (int q = 0; q < 6; q++) for (auto &r : s.r) if (r.k[dim - 1] == LB[q]) { bool in = false; for (auto &c : cols) if (c == LB[q]) in = true; if (!in) cols.push_back(LB[q]); }
   if (P("header", 0)) { A(rows.size() > 0 && rows[0].size() == 1 && rows[0][0] == "some new header", "the header asked for"); p = 1; }
   else if (!nohdr) { A(rows.size() > 0, "a header line"); auto &h = rows[p++]; int nd = cdim ? dim - 1 : dim; size_t exp = cdim ? nd + (cols.empty() ? 1 : cols.size()) : (size_t) nd + (isset ? (stext ? 1 : 0) : full && ve ? 5 : 1); A(h.size() == exp || (cdim && cols.empty()), "the header has one field per column");
      for (int d = 0; d < nd; d++) { std::string w = s.dom.empty() || s.dom[d] == "*" ? "Dim" + std::to_string(d + 1) : s.dom[d]; A(h[d] == w || h[d].substr(0, w.size() + 1) == w + "_", "columns are named by domain"); for (int e = 0; e < d; e++) A(h[e] != h[d], "column names are distinct"); }
      if (cdim) for (size_t c = 0; c < cols.size(); c++) A(h[nd + c] == cols[c], "one column per label of the last index"); else { static const char *HN[] = { "Val", "Marginal", "Lower", "Upper", "Scale" }; if (isset) { if (stext) A(h[nd] == "Text", "column of texts"); } else for (int q = 0; q < (full && ve ? 5 : 1); q++) A(h[nd + q] == HN[q], "columns of values"); } }
   if (!cdim) { A(rows.size() - p == s.r.size(), "one line per record"); for (auto &q : s.r) { auto &r = rows[p++]; A(r.size() == (size_t) dim + (isset ? (stext ? 1 : 0) : full && ve ? 5 : 1), "each line has all columns"); for (int d = 0; d < dim; d++) A(r[d] == q.k[d], "the labels of a record"); if (isset) { if (stext) A(r[dim] == q.txt, "the text of an element"); } else for (int e = 0; e < (full && ve ? 5 : 1); e++) A(r[dim + e] == vstr(q.v[e], hex, dec), "the values of a record"); } }
   else { size_t e = 0; while (e < s.r.size()) { A(p < rows.size(), "one line per row"); auto &r = rows[p++]; A(r.size() == dim - 1 + cols.size(), "each line has all columns"); for (int d = 0; d < dim - 1; d++) A(r[d] == s.r[e].k[d], "the labels of a row"); std::vector<char> set(cols.size(), 0); size_t b = e; for (; e < s.r.size(); e++) { bool same = true; for (int d = 0; d < dim - 1; d++) if (s.r[e].k[d] != s.r[b].k[d]) same = false; if (!same) break; for (size_t c = 0; c < cols.size(); c++) if (cols[c] == s.r[e].k[dim - 1]) { set[c] = 1; A(r[dim - 1 + c] == (isset ? "Y" : vstr(s.r[e].v[0], hex, dec)), "the value of a record"); } } for (size_t c = 0; c < cols.size(); c++) if (!set[c]) A(r[dim - 1 + c].empty(), "no record, no value"); } A(p == rows.size(), "no further lines"); symx_cover("columns"); }
   symx_cover("end");
}
// records with element numbers without label are shown as such in all formats
ENTRY(c22_nolabel) {
   Sess w; w.openW("f.gdx"); static const char *L[] = { "a", "b" }; regRaw(w, L, 2); int dim = (int) P("dim", 2); A(w->gdxDataWriteRawStart("Sym", "", dim, GMS_DT_PAR, 0), "start"); int k[20], n = 0, bad[20] = { 0 }; static const int NR[] = { 1, 2, 3, 1000000 }; double v[5] = { 1.5 }; for (int d = 0; d < dim; d++) { k[d] = NR[symx_choice(4, "element")]; bad[d] = k[d] > 2; } A(w->gdxDataWriteRaw(k, v), "record"); A(w->gdxDataWriteDone(), "done"); w.close();
   static const char *F[] = { "Format=normal", "Format=csv", "CDim=Y" }; int how = (int) P("how", 0); std::vector<std::string> args = { "f.gdx", "Symb=sym", F[how] }; if (how == 2) args.push_back("Format=csv"); ToolRun t = runTool(args); A(t.rc == 0, "gdxdump ends normally"); for (int d = 0; d < dim; d++) A(has(t.out, bad[d] ? "L__" + std::to_string(k[d]) : k[d] == 1 ? "a" : "b"), "every index is shown"); for (int d = 0; d < dim; d++) n += bad[d]; A(has(t.out, "without a string representation") == (n > 0), "missing labels are reported"); A(has(t.out, "1.5"), "the value"); symx_cover("end");
}
// lists of symbols, domains, texts, labels; version
static std::vector<std::string> words(const std::string &l) { std::vector<std::string> r; size_t p = 0; while (p < l.size()) { while (p < l.size() && l[p] == ' ') p++; std::string w; while (p < l.size() && l[p] != ' ') w += l[p++]; if (!w.empty()) r.push_back(w); } return r; }
static std::vector<std::string> linesOf(const std::string &s) { std::vector<std::string> r; std::string l; for (char c : s) if (c == '\n') { r.push_back(l); l.clear(); } else l += c; if (!l.empty()) r.push_back(l); return r; }
ENTRY(c22_lists) {
   static const char *TN[] = { "Set", "Par", "Var", "Equ" }; ACR.clear(); SVT.clear(); int n = (int) P("n", 2); Fl f; static const char *N[] = { "beta", "Alpha", "ceta" }; std::vector<std::string> texts = { "" }, labels; int mxt = 0;
   for (int c = 0; c < n; c++) { std::string t(1, (char) ('p' + c)); S s { N[c], ST[symx_choice(2, "text")], (int) symx_choice(4, "type"), 0, 0, {}, {}, {}, "" }; s.dim = (int) symx_choice(3, "dim"); if (s.typ == GMS_DT_SET && !s.dim) s.dim = 1; if (s.typ == GMS_DT_EQU) s.sub = GMS_EQU_USERINFO_BASE;
      if (symx_choice(2, "record")) { R q; for (double &v : q.v) v = 0; q.v[0] = s.typ == GMS_DT_SET ? 0 : 2; q.k.assign(s.dim, LB[c]); if (s.typ == GMS_DT_SET) q.txt = c ? "tx2" : "tx1"; s.r.push_back(q); if (!q.txt.empty()) { texts.push_back(q.txt); mxt = (int) texts.size() - 1; } if (s.dim) labels.push_back(LB[c]); } f.push_back(s); }
   build("f.gdx", f); int how = (int) P("how", 0); static const char *O[] = { "Symbols", "DomainInfo", "SetText", "SymbolsAsSet", "UelTable=uels", "-V", "Symb=nothere" }; ToolRun t = runTool({ "f.gdx", O[how] }); A(t.rc == (how == 6 ? 6 : 0), "result"); auto l = linesOf(t.out); std::vector<size_t> ord; for (size_t i = 0; i < f.size(); i++) ord.push_back(i); if (f.size() > 1) std::swap(ord[0], ord[1]); if (how == 3 || how == 1) for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
   if (how == 0) { A(l.size() == f.size() + 1, "one line per symbol"); std::vector<char> hit(f.size(), 0); for (size_t i = 0; i < f.size(); i++) { auto w = words(l[i + 1]); A(w.size() >= 5, "columns"); for (size_t j = 0; j < f.size(); j++) if (f[j].name == w[1]) { hit[j] = 1; A(w[0] == std::to_string(i + 1) && w[2] == std::to_string(f[j].dim) && w[3] == TN[f[j].typ] && w[4] == std::to_string(f[j].dim ? (int) f[j].r.size() : 1) && has(l[i + 1], f[j].text), "the symbol is described"); } } for (char h : hit) A(h, "every symbol is listed"); }
   else if (how == 1) { A(l.size() == f.size() + 1, "one line per symbol"); std::vector<char> hit(f.size(), 0); for (size_t i = 1; i < l.size(); i++) { auto w = words(l[i]); A(w.size() >= 4, "columns"); int j = atoi(w[0].c_str()) - 1; A(j >= 0 && j < (int) f.size() && !hit[j], "the number of a symbol"); hit[j] = 1; A(w[1] == TN[f[j].typ] && w[3].substr(0, f[j].name.size()) == f[j].name, "type and name of the symbol"); A(has(l[i], f[j].dim == 0 ? f[j].name : f[j].dim == 1 ? f[j].name + "(*)" : f[j].name + "(*, *)"), "the domains"); } }
   else if (how == 2) { A(l.size() == texts.size() + 3 && has(l[0], " " + std::to_string(texts.size())), "the number of texts"); A(has(l[1], " " + std::to_string(mxt)), "the largest text number in use"); for (size_t i = 0; i < texts.size(); i++) A(has(l[i + 3], "\"" + texts[i] + "\""), "each text"); }
   else if (how == 3) { size_t at = 0; for (auto &s : f) { size_t q = t.out.find("\"" + s.name + "\"." + std::to_string(s.dim) + ".\"" + TN[s.typ] + "\"", at); A(q != std::string::npos, "each symbol is an element of the set, in order"); at = q + 1; if (!s.text.empty()) A(has(l[1 + 1], "") && has(t.out.substr(q), s.text), "with its text"); } }
   else if (how == 4) { Lex x(t.out); x.lines(); if (labels.empty()) A(has(t.out, "Set uels(*) / /;"), "no labels"); else { A(x.word(" ") == "Set" && x.word(" ") == "uels", "the set of all labels"); x.need('/', "/"); std::vector<std::string> u; for (auto &b : labels) { bool in = false; for (auto &c : u) if (c == b) in = true; if (!in) u.push_back(b); } for (size_t i = 0; i < u.size(); i++) { A(x.quoted() == u[i], "each label once, in order"); x.need(i + 1 < u.size() ? ',' : '/', "separator"); } x.need(';', ";"); } }
   else if (how == 5) { A(has(t.out, "harness"), "the producer"); std::vector<std::string> u; for (auto &b : labels) { bool in = false; for (auto &c : u) if (c == b) in = true; if (!in) u.push_back(b); } for (auto &q : l) { auto w = words(q); if (has(q, "Symbols")) A(w.back() == std::to_string(f.size()), "the number of symbols"); if (has(q, "Unique Elements")) A(w.back() == std::to_string(u.size()), "the number of labels"); if (has(q, "File format")) A(w.back() == "7", "the version of the format"); if (has(q, "Compression")) A(w.back() == "0", "compression"); } A(l.size() == 6, "six lines"); }
   else A(has(t.out, "Symbol not found"), "an unknown symbol is reported");
   symx_cover("end");
}
