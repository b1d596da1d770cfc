// C17: the containers of gdlib behave like their abstract models: sorted record store, label hash lists, bit sets, integer maps, string lists and pools, growing arrays.
#include "gx.h"
#include "gxfile.hpp"
#include "gmsobj.hpp"
#include "gmsdata.hpp"
#include "strhash.hpp"
#include "datastorage.hpp"
#include "batchalloc.hpp"
using namespace gdlib;
// records come back in increasing key order, equal keys in the order added, each with its data
ENTRY(c17_linked) {
   int dim = (int) P("dim", 2), n = (int) P("n", 3), nk = (int) P("keys", 3), base = (int) P("base", 1), bulk = (int) P("bulk", 0), nv = (int) P("nv", 1), gap = (int) P("gap", 1);
   datastorage::TLinkedData<int, double> L { dim, nv * (int) sizeof(double) }; std::vector<Rec> m; int round = 0;
   for (int pass = 0; pass < (int) P("passes", 1); pass++) { m.clear();
      for (int i = 0; i < bulk; i++) { Rec r; memset(&r, 0, sizeof r); for (int d = 0; d < dim; d++) r.k[d] = base + ((bulk - i) * (d + 1)) % 7; for (int v = 0; v < nv; v++) r.v[v] = i * 10 + v; L.AddItem(r.k, r.v); m.push_back(r); }
      for (int i = 0; i < n; i++) { Rec r; memset(&r, 0, sizeof r); for (int d = 0; d < dim; d++) r.k[d] = base + gap * (int) symx_choice(nk, "key"); for (int v = 0; v < nv; v++) r.v[v] = symV("value"); L.AddItem(r.k, nv ? r.v : nullptr); m.push_back(r); }
      A(L.Count() == (int) m.size(), "count"); std::vector<Rec> e; for (auto &r : m) { size_t p = e.size(); auto less = [&](const Rec &a, const Rec &b) { for (int d = 0; d < dim; d++) if (a.k[d] != b.k[d]) return a.k[d] < b.k[d]; return false; }; while (p > 0 && less(r, e[p - 1])) p--; e.insert(e.begin() + p, r); }
      auto it = L.StartRead(); A(it.has_value() == !m.empty(), "start"); if (it.has_value()) { auto *q = *it; for (auto &r : e) { int k[20]; double v[5]; A(L.GetNextRecord(&q, k, v), "record present"); for (int d = 0; d < dim; d++) A(k[d] == r.k[d], "key order"); for (int f = 0; f < nv; f++) A(v[f] == r.v[f], "data belongs to its key, equal keys in the order added"); } int k[20]; double v[5]; A(!L.GetNextRecord(&q, k, v), "no extra record"); }
      L.Clear(); A(L.Count() == 0 && !L.StartRead().has_value(), "empty after clear"); round++; }
   symx_cover("end");
}
static bool sameCI(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { char x = a[i], y = b[i]; if (x >= 'a' && x <= 'z') x -= 32; if (y >= 'a' && y <= 'z') y -= 32; if (x != y) return false; } return true; }
// hash list of labels: numbers by order of addition, look-up by text, rename, reset
template<class H> static void hashOps(bool ci) {
   int n = (int) P("n", 3), bulk = (int) P("bulk", 0), one = (int) P("onebased", 1), cap = (int) P("cap", 0); H h; h.OneBased = one; if (cap) h.SetCapacity(cap, cap * 4); std::vector<std::string> m; std::vector<int> o; const char *N[] = { "ab", "AB", "ba", "u7", "", "Zz" }; // some equal up to case
   for (int i = 0; i < bulk; i++) { std::string s = lab(i); int r = P("store", 0) ? h.StoreObject(s.c_str(), s.size(), i) : h.AddObject(s.c_str(), s.size(), i); A(r == i + one, "number of a new entry"); m.push_back(s); o.push_back(i); }
   auto find = [&](const std::string &s) { for (size_t i = 0; i < m.size(); i++) if (ci ? sameCI(m[i], s) : m[i] == s) return (int) i; return -1; };
   for (int i = 0; i < n; i++) { int op = (int) symx_choice(5, "operation"); std::string s = N[symx_choice(6, "name")]; int f = find(s);
      if (op == 0) { int v = symU("object", 8); int r = h.AddObject(s.c_str(), s.size(), v); if (f >= 0) A(r == f + one, "existing entry is returned"); else { A(r == (int) m.size() + one, "next number"); m.push_back(s); o.push_back(v); } }
      else if (op == 1) A(h.IndexOf(s.c_str()) == (f < 0 ? -1 : f + one), "look-up");
      else if (op == 2) { if (m.empty() || f >= 0) { if (m.empty()) continue; continue; } int at = (int) symx_choice((unsigned) std::min<size_t>(m.size(), 3), "entry"); if (at == 2) at = (int) m.size() - 1; h.RenameEntry(at + one, s.c_str()); m[at] = s; }
      else if (op == 3) { if (f >= 0) continue; int r = h.StoreObject(s.c_str(), s.size(), 5); A(r == (int) m.size() + one, "stored"); m.push_back(s); o.push_back(5); }
      else { if (m.size() > 50) continue; h.Clear(); m.clear(); o.clear(); }
   }
   A(h.size() == (int) m.size() && h.Count() == (int) m.size() && h.empty() == m.empty(), "count"); for (size_t i = 0; i < m.size(); i++) { if (bulk > 50 && i > 3 && i + 8 < m.size() && i % 97) continue; A(m[i] == h.GetString((int) i + one) && (int) m[i].size() == h.GetStringLength((int) i + one), "text of entry"); A(*h.GetObject((int) i + one) == o[i], "object of entry"); A(h.IndexOf(m[i].c_str()) == (int) i + one, "every entry is found"); } for (auto s : N) { int f = find(s); A(h.IndexOf(s) == (f < 0 ? -1 : f + one), "look-up of every name"); } symx_cover("end");
}
ENTRY(c17_hash) { if (P("cs", 0)) hashOps<strhash::TXCSStrHashList<int>>(false); else hashOps<strhash::TXStrHashList<int>>(true); }
// bit set
ENTRY(c17_bits) {
   int n = (int) P("n", 3), base = (int) P("base", 0), span = (int) P("span", 4), far = (int) P("far", 0); gmsobj::TBooleanBitArray b; std::vector<int> on; int high = -1; auto has = [&](int i) { for (int x : on) if (x == i) return true; return false; };
   for (int i = 0; i < n; i++) { int op = (int) symx_choice(3, "operation"), k = base + (int) symx_choice(span, "index"); if (far && symx_choice(2, "far")) k += far; if (op == 0) { b.SetBit(k, true); if (!has(k)) on.push_back(k); if (k > high) high = k; } else if (op == 1) { b.SetBit(k, false); std::vector<int> q; for (int x : on) if (x != k) q.push_back(x); on = q; } else { b.SetHighIndex(k); if (k > high) high = k; } }
   A(b.GetHighIndex() == high, "highest index"); if (P("conc", 0)) { for (int f = 0; f < 2; f++) for (int k = base - 9; k < base + span + 9; k++) A(b.GetBit(k + f * far) == has(k + f * far), "exactly the bits set and not cleared since are set"); for (int k : { -1, 0, 7, 8, 2047, 2048, high + 1, INT_MAX }) A(b.GetBit(k) == has(k), "other bits are not set"); symx_cover("end"); return; } int q = symI("query"); bool e = false; for (int x : on) e |= x == q; symx_assume(q < base - 20 || q > high || (q >= base - 2 && q <= base + span + 8) || (far && q >= base + far - 2 && q <= base + far + span + 8)); A(b.GetBit(q) == e, "exactly the bits set and not cleared since are set"); symx_cover("end");
}
// integer map: user number -> entry, unset numbers give -1
ENTRY(c17_intmap) {
   int n = (int) P("n", 3); static const int K[] = { 0, 1, 1023, 1024, 1025, 2047, 2048, 5000 }; gdx::TIntegerMapping t; std::vector<std::pair<int, int>> m; int hi = 0; for (int i = 0; i < n; i++) { int k = K[symx_choice(8, "key")], v = symI("value"); t.SetMapping(k, v); bool f = false; for (auto &p : m) if (p.first == k) { p.second = v; f = true; } if (!f) m.push_back({ k, v }); if (k > hi) hi = k; }
   A(t.GetHighestIndex() == hi, "highest index"); for (int k : K) { int e = -1; for (auto &p : m) if (p.first == k) e = p.second; A(t.GetMapping(k) == e, "mapping"); } for (int k : { 2, 1022, 3000, -1, INT_MIN, INT_MAX, 8191, 8192 }) A(t.GetMapping(k) == -1, "unset number"); symx_cover("end");
}
// record table (error list and domain sort)
ENTRY(c17_table) {
   int dim = (int) P("dim", 1), n = (int) P("n", 3), nv = (int) P("nv", 2); gmsdata::TTblGamsData<double> t { dim, nv * (int) sizeof(double) }; std::vector<Rec> m; for (int i = 0; i < n; i++) { Rec r; for (int d = 0; d < dim; d++) r.k[d] = (int) symx_choice(3, "key") - 1; for (int v = 0; v < nv; v++) r.v[v] = symV("value"); t.AddRecord(r.k, r.v); m.push_back(r); }
   A(t.GetCount() == n && t.size() == n && t.GetDimension() == dim, "count"); int k[20]; double v[5]; for (int i = 0; i < n; i++) { t.GetRecord(i, k, v); for (int d = 0; d < dim; d++) A(k[d] == m[i].k[d], "key"); for (int f = 0; f < nv; f++) A(v[f] == m[i].v[f], "value"); t.GetKeys(i, k); A(k[0] == m[i].k[0], "key"); A(t.GetDataPtr(i)[0] == m[i].v[0], "data"); }
   t.Sort(); std::vector<bool> used(n, false); int prev[20]; for (int i = 0; i < n; i++) { t.GetRecord(i, k, v); if (i) { bool le = true; for (int d = 0; d < dim; d++) if (prev[d] != k[d]) { le = prev[d] < k[d]; break; } A(le, "sorted"); } memcpy(prev, k, sizeof prev); bool f = false; for (int j = 0; j < n && !f; j++) { if (used[j]) continue; bool eq = true; for (int d = 0; d < dim; d++) eq = eq && m[j].k[d] == k[d]; if (!eq) continue; bool ev = true; for (int q = 0; q < nv; q++) ev = ev & (v[q] == m[j].v[q]); if (ev) { used[j] = true; f = true; } } A(f, "sorting keeps every record"); } t.Clear(); A(t.empty(), "cleared"); symx_cover("end");
}
// pointer and string lists
ENTRY(c17_list) {
   int n = (int) P("n", 4), bulk = (int) P("bulk", 0); gmsobj::TXList<int> l; static int X[200]; std::vector<int *> m; for (int i = 0; i < bulk; i++) { A(l.Add(&X[i + 10]) == i, "added at the end"); m.push_back(&X[i + 10]); }
   for (int i = 0; i < n; i++) { int op = (int) symx_choice(6, "operation"); int *p = &X[symx_choice(3, "item")]; auto ix = [&]() { for (size_t j = 0; j < m.size(); j++) if (m[j] == p) return (int) j; return -1; };
      if (op == 0) { A(l.Add(p) == (int) m.size(), "added at the end"); m.push_back(p); } else if (op == 1) { int at = (int) symx_choice(3, "position"); if (at > (int) m.size()) continue; l.Insert(at, p); m.insert(m.begin() + at, p); } else if (op == 2) { int at = (int) symx_choice(3, "position"); if (at >= (int) m.size()) continue; l.Delete(at); m.erase(m.begin() + at); } else if (op == 3) { int e = ix(); A(l.Extract(p) == (e < 0 ? nullptr : p), "extract"); if (e >= 0) m.erase(m.begin() + e); } else if (op == 4) { A(l.IndexOf(p) == ix(), "index"); } else { int e = -1; for (size_t j = 0; j < m.size(); j++) if (m[j] == p) e = (int) j; A(l.Remove(p) == e, "remove"); if (e >= 0) m.erase(m.begin() + e); } }
   A(l.size() == (int) m.size() && l.empty() == m.empty(), "count"); for (size_t i = 0; i < m.size(); i++) A(l[(int) i] == m[i] && l.GetConst((int) i) == m[i], "item"); A(l.GetLast() == (m.empty() ? nullptr : m.back()), "last"); l.Clear(); A(l.empty(), "cleared");
   symx_cover("end");
}
ENTRY(c17_strings) { int n = (int) P("n", 4);
   gmsobj::TXStrings s; std::vector<std::string> ms; for (int i = 0; i < n; i++) { std::string q = std::string("AbC").substr(0, symx_choice(4, "length")); A(s.Add(q.c_str(), q.size()) == i, "string added"); ms.push_back(q); } for (int i = 0; i < n; i++) { A(ms[i] == s[i], "string"); } symx_cover("end");
}
// string lists with objects: plain, hashed (no duplicates), pool, sorted
ENTRY(c17_strlist) {
   int kind = (int) P("kind", 0), n = (int) P("n", 3), one = (int) P("onebased", 0); static int O[20]; const char *N[] = { "b", "B", "a", "abcdefgh", "ABCDEFGH", "" }; std::vector<std::string> m; std::vector<int *> o;
   gmsobj::TXCustomStringList<int> c; gmsobj::TXHashedStringList<int> h; gmsobj::TXStrPool<int> p; gmsobj::TXSortedStringList<int> s; gmsobj::TXCustomStringList<int> *l = kind == 0 ? &c : kind == 1 ? (gmsobj::TXCustomStringList<int> *) &h : kind == 2 ? (gmsobj::TXCustomStringList<int> *) &p : (gmsobj::TXCustomStringList<int> *) &s; l->OneBased = one;
   for (int i = 0; i < n; i++) { std::string q = N[symx_choice(6, "name")]; int *ob = &O[i]; int f = -1; bool cs = kind != 0; for (size_t j = 0; j < m.size(); j++) if (cs ? m[j] == q : sameCI(m[j], q)) { f = (int) j; break; }
      if (kind == 3) { int r = s.AddObject(q.c_str(), q.size(), ob) - one; A(r >= 0 && r <= (int) m.size(), "position"); m.insert(m.begin() + r, q); o.insert(o.begin() + r, ob); } else { int r = l->AddObject(q.c_str(), q.size(), ob) - one; if (kind && f >= 0) A(r == f, "existing entry"); else { A(r == (int) m.size(), "added at the end"); m.push_back(q); o.push_back(ob); } } }
   if (P("del", 0) && !kind && !m.empty()) { int at = (int) symx_choice((unsigned) m.size(), "delete"); l->Delete(at + one); m.erase(m.begin() + at); o.erase(o.begin() + at); }
   A(l->size() == (int) m.size() && l->Count() == (int) m.size(), "count"); for (size_t i = 0; i < m.size(); i++) { A(m[i] == l->GetString((int) i + one), "string"); A(l->GetObject((int) i + one) == o[i], "object"); if (kind == 3 && i) { std::string a = m[i - 1], b = m[i]; for (auto *z : { &a, &b }) for (auto &ch : *z) if (ch >= 'a' && ch <= 'z') ch -= 32; A(a <= b, "sorted"); } }
   for (auto q : N) { int f = -1; for (size_t j = 0; j < m.size(); j++) if (sameCI(m[j], q)) { f = (int) j; break; } if (kind == 3) { int r = s.IndexOf(q, strlen(q)); A((r >= 0) == (f >= 0) && (r < 0 || sameCI(m[r - one], q)), "look-up"); } else { int r = l->IndexOf(q); A(r == (f < 0 ? -1 : f + one), "look-up"); } }
   if (kind == 0) { l->SortN((int) m.size()); for (size_t i = 1; i < m.size(); i++) A(l->Compare((int) i - 1 + one, (int) i + one) <= 0, "sorted"); std::vector<bool> used(m.size()); for (size_t i = 0; i < m.size(); i++) { bool f = false; for (size_t j = 0; j < m.size() && !f; j++) if (!used[j] && l->GetObject((int) i + one) == o[j] && m[j] == l->GetString((int) i + one)) used[j] = f = true; A(f, "sorting keeps every entry"); } }
   l->Clear(); A(l->size() == 0, "cleared"); symx_cover("end");
}
// growing arrays across the 16 KiB buffers
ENTRY(c17_grow) {
   int bulk = (int) P("bulk", 4094), n = (int) P("n", 4); gmsdata::TXIntList l; std::vector<int> m; for (int i = 0; i < bulk; i++) { A(l.Add(i * 3) == i, "number"); m.push_back(i * 3); } for (int i = 0; i < n; i++) { int op = (int) symx_choice(3, "operation"), v = symI("value"); if (op == 0) { A(l.Add(v) == (int) m.size(), "number"); m.push_back(v); } else if (op == 1) { int at = (int) m.size() + (int) symx_choice(3, "beyond"); l[at] = v; while ((int) m.size() <= at) m.push_back(0); m[at] = v; } else if (m.size() > 1) { l.Exchange((int) m.size() - 1, 0); std::swap(m.front(), m.back()); } }
   A(l.GetCount() == (int) m.size(), "count"); const auto &cl = l; for (size_t i = 0; i < m.size(); i++) { if (i > 10 && i + 10 < m.size() && i % 61) continue; A(cl[(int) i] == m[i], "item"); } l.Clear(); A(l.GetCount() == 0, "cleared"); A(l.Add(7) == 0 && l[0] == 7, "usable after clear"); symx_cover("end");
}
// memory of the batch allocator: every block stays intact
ENTRY(c17_batch) {
   batchalloc::BatchAllocator<64, 8> b; int n = (int) P("n", 4); if (P("first", 0)) b.SetFirstBatchSize((size_t) P("first", 0)); std::vector<std::pair<unsigned char *, int>> m; static const int S[] = { 1, 8, 24, 33, 57, 64 }; for (int i = 0; i < n; i++) { int z = S[symx_choice(6, "size")]; unsigned char *p = b.GetBytes(z); A(((unsigned long) p & 7) == 0, "aligned"); memset(p, i + 1, z); m.push_back({ p, z }); } for (int i = 0; i < n; i++) for (int j = 0; j < m[i].second; j++) A(m[i].first[j] == i + 1, "blocks do not overlap"); b.clear(); unsigned char *p = b.GetBytes(64); memset(p, 1, 64); symx_cover("end");
}
ENTRY(c17_cmove) { int len = (int) symx_choice(40, "length"); unsigned char a[48], b[48], r[48]; for (int i = 0; i < 48; i++) { a[i] = (unsigned char) symx_sym(8, "byte"); r[i] = b[i] = (unsigned char) (0x80 + i); } gmsobj::CMove(a, b, len); for (int i = 0; i < 48; i++) A(b[i] == (i < len ? a[i] : r[i]), "copied exactly"); symx_cover("end"); }
