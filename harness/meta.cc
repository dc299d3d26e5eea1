// Walks the compiled table of the real library and its lookup, and compares them with the expected rows.
#include <cstdarg>
#include <cstdio>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "indicators.h"
#include "meta_row.hpp"
#include <string.h>
using std::string; using std::vector;
static int nviol = 0; static long checks = 0, lookups = 0, hits = 0;
static string esc(const string& s) { string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void viol(const string& key, const char* f, ...) {
    if (nviol++ > 60) return; char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    printf("{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\"}\n", esc(key).c_str(), esc(b).c_str());
}
static string str(const char* s) { return s ? s : "(null)"; }
struct Rng { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); } };
int main(int argc, char** argv) {
    Rng r{strtoull(argv[1], 0, 10) * 77 + 5}; long cases = atol(argv[2]);
    setvbuf(stdout, 0, _IOLBF, 0);
    std::map<string, const Want*> byname; for (int i = 0; i < want_count; ++i) byname[want[i].name] = &want[i];
    if (str(ti_version()) != want_version) viol("meta:version", "ti_version() is %s, the tree is version %s", str(ti_version()).c_str(), want_version);
    if (string(TI_VERSION) != want_version) viol("meta:version", "TI_VERSION is %s, the tree is version %s", TI_VERSION, want_version);
    if (ti_build() != TI_BUILD) viol("meta:build", "ti_build() is %ld, TI_BUILD %ld", (long)ti_build(), (long)TI_BUILD);
    if (ti_build() < 1500000000L) viol("meta:build", "ti_build() %ld is no build time", (long)ti_build());
    if (ti_indicator_count() != want_count) viol("meta:count", "ti_indicator_count() is %d, the catalogue has %d", ti_indicator_count(), want_count);
    if (TI_INDICATOR_COUNT != want_count) viol("meta:count", "TI_INDICATOR_COUNT is %d, the catalogue has %d", TI_INDICATOR_COUNT, want_count);
    if (TI_OKAY != 0 || TI_INVALID_OPTION != 1 || TI_OUT_OF_MEMORY != 2) viol("meta:codes", "the return codes are %d %d %d", TI_OKAY, TI_INVALID_OPTION, TI_OUT_OF_MEMORY);
    if (TI_TYPE_OVERLAY != 1 || TI_TYPE_INDICATOR != 2 || TI_TYPE_MATH != 3 || TI_TYPE_SIMPLE != 4 || TI_TYPE_COMPARATIVE != 5) viol("meta:types", "the type codes changed");
    int n = 0; while (n < want_count + 50 && ti_indicators[n].name) ++n;
    if (n != want_count) viol("meta:terminator", "the table ends after %d rows, the catalogue has %d", n, want_count);
    std::set<string> seen; int rows = std::min(n, want_count);
    for (int i = 0; i < rows; ++i) {
        const ti_indicator_info& t = ti_indicators[i]; string nm = str(t.name);
        if (!seen.insert(nm).second) viol("meta:duplicate", "%s appears twice", nm.c_str());
        if (i && strcmp(ti_indicators[i - 1].name, t.name) >= 0) viol("meta:order", "%s follows %s", nm.c_str(), ti_indicators[i - 1].name);
        auto it = byname.find(nm); if (it == byname.end()) { viol("meta:unknown", "%s is not in the catalogue", nm.c_str()); continue; }
        const Want& w = *it->second; const char* k = nm.c_str(); ++checks;
        if (w.index != i) viol(nm + ":index", "%s: its index constant is %d, its row %d", k, w.index, i);
        if (str(t.full_name) != w.full) viol(nm + ":fullname", "%s: full name %s, catalogue %s", k, str(t.full_name).c_str(), w.full);
        if (t.type != w.type) viol(nm + ":type", "%s: type %d, catalogue %d", k, t.type, w.type);
        if (t.inputs != w.inputs || t.options != w.options || t.outputs != w.outputs) viol(nm + ":counts", "%s: %d/%d/%d, catalogue %d/%d/%d", k, t.inputs, t.options, t.outputs, w.inputs, w.options, w.outputs);
        if (t.inputs > TI_MAXINDPARAMS || t.options > TI_MAXINDPARAMS || t.outputs > TI_MAXINDPARAMS || t.inputs < 1 || t.outputs < 1) viol(nm + ":counts", "%s: counts out of range", k);
        auto names = [&](const char* what, char* const* a, const char* const* b, int c) {
            for (int j = 0; j < c && j < TI_MAXINDPARAMS; ++j) { ++checks; if (str(a[j]) != str(b[j])) viol(nm + ":names", "%s: %s %d is %s, catalogue %s", k, what, j, str(a[j]).c_str(), str(b[j]).c_str()); }
            if (c < TI_MAXINDPARAMS && a[c]) viol(nm + ":names", "%s: the %s names are not terminated", k, what);
        };
        names("input", t.input_names, w.in, w.inputs); names("option", t.option_names, w.opt, w.options); names("output", t.output_names, w.out, w.outputs);
        if (t.start != w.start || t.indicator != w.plain) viol(nm + ":functions", "%s: the row points at another indicator's functions", k);
        if (t.indicator_ref != w.ref) viol(nm + ":ref", "%s: reference implementation %s, catalogue %s", k, t.indicator_ref ? "present" : "absent", w.ref ? "present" : "absent");
        if (t.stream_new != w.snew || t.stream_run != w.srun || t.stream_free != w.sfree) viol(nm + ":stream", "%s: the stream functions are not the indicator's own", k);
        ++lookups; ++hits; if (ti_find_indicator(t.name) != &t) viol(nm + ":lookup", "ti_find_indicator(\"%s\") does not return its row", k);
        string copy = nm; ++lookups; if (ti_find_indicator(copy.c_str()) != &t) viol(nm + ":lookup", "ti_find_indicator of a copy of \"%s\" does not return its row", k);
    }
    for (auto& b : byname) if (!seen.count(b.first)) viol("meta:missing", "%s is missing from the table", b.first.c_str());
    // names that are not there
    long distinct = 0; std::set<string> tried;
    for (long q = 0; q < cases && rows; ++q) {
        string s = ti_indicators[r.below(rows)].name; int how = r.below(10);
        if (how == 0) s = ""; else if (how == 1) s.pop_back(); else if (how == 2) s += (char)('a' + r.below(26)); else if (how == 3) s[r.below(s.size())] = (char)(33 + r.below(94));
        else if (how == 4) for (auto& c : s) c = toupper(c); else if (how == 5) s = s.substr(1); else if (how == 6) { s.insert(r.below(s.size() + 1), 1, (char)(1 + r.below(255))); }
        else if (how == 7) { s.clear(); int l = 1 + r.below(6); for (int j = 0; j < l; ++j) s += (char)('a' + r.below(26)); } else if (how == 8) s = string(1 + r.below(3000), (char)(1 + r.below(255))); else s = s + s;
        const ti_indicator_info* g = ti_find_indicator(s.c_str()); ++lookups; auto it = byname.find(s.c_str());
        if (tried.insert(s).second) ++distinct;
        if (it == byname.end() ? g != 0 : (!g || str(g->name) != s)) viol("meta:find", "ti_find_indicator(\"%s\") returns %s", s.substr(0, 60).c_str(), g ? str(g->name).c_str() : "nothing");
        if (it != byname.end()) ++hits;
        if (q < 4) printf("{\"t\":\"sample\",\"what\":\"lookup of \\\"%s\\\" -> %s\"}\n", esc(s.substr(0, 40)).c_str(), g ? esc(g->name).c_str() : "nothing");
    }
    printf("{\"t\":\"stat\",\"cases\":%ld,\"distinct\":%ld,\"rows\":%d,\"row_checks\":%ld,\"lookups\":%ld,\"lookup_hits\":%ld}\n", cases + rows, distinct + rows, rows, checks, lookups, hits);
    return 0;
}
