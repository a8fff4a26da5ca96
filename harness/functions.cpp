// The truth, mapping, boolean and temporal functions (headers only; not part of the default build of /repo).
#include <tuple>
#include <utility>
#include <charconv>
#include <cstdint>
#include "NAL/Functions/include/UncertaintyMappingFunctions.h"
#include "NAL/Functions/include/ExtendedBooleanFunction.h"
#if __has_include("NAL/Functions/src/UncertaintyMappingFunctions.cpp")
#include "NAL/Functions/src/UncertaintyMappingFunctions.cpp"
#define VERIF_TUPLE
#endif
#include "NAL/Functions/include/TruthFunctions.h"
#include "NAL/Functions/include/TemporalFunctions.h"
#include "Narsese/include/Budget.h"
#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>

void verif_functions(std::istringstream &in, const std::string &fn, std::string &o)
{
    using namespace TRUTH_FUNCTIONS;
    using TRUTH::pTruth;
    using TRUTH::Truth;
    auto dbl = [&](double v) {
        char b[64];
        if (v != v) strcpy(b, "\"nan\"");
        else if (v > 1e308) strcpy(b, "\"inf\"");
        else if (v < -1e308) strcpy(b, "\"-inf\"");
        else *std::to_chars(b, b + sizeof b - 1, v, std::chars_format::general, 17).ptr = 0;
        o += b;
    };
    auto tv = [&](const char *k, const Truth &t) { if (o.back() != '{') o += ','; o += '"'; o += k; o += "\":["; dbl(t.f); o += ","; dbl(t.c); o += ","; dbl(t.k); o += "]"; };
    auto val = [&](const char *k, double v) { if (o.back() != '{') o += ','; o += '"'; o += k; o += "\":"; dbl(v); };
    auto rd = [&]() { double f, c, k; in >> f >> c >> k; return Truth::create((float)f, (float)c, (float)k); };
    if (fn == "rev" || fn == "ded" || fn == "ind" || fn == "cmp")
    {
        pTruth a = rd(), b = rd();
        if (fn == "rev") { truth_revision(a, b); tv("r", *a); tv("b", *b); return; }
        pTruth r = fn == "ded" ? truth_deduction(a, b) : fn == "ind" ? truth_induction(a, b) : truth_comparison(a, b);
        tv("r", *r); tv("a", *a); tv("b", *b);
        val("alias", r == a || r == b);
    }
    else if (fn == "revmany") // a long history: one truth revised by another, n times
    {
        pTruth a = rd(), b = rd();
        long n, every;
        in >> n >> every;
        o += "\"r\":[";
        for (long i = 1; i <= n; i++)
        {
            truth_revision(a, b);
            if (i % every == 0 || i == n) { if (o.back() != '[') o += ','; o += "["; dbl(a->f); o += ","; dbl(a->c); o += ","; dbl(a->k); o += "]"; }
        }
        o += "]";
    }
    else if (fn == "revmap") { double a, b, c, d; in >> a >> b >> c >> d; auto [p, m] = revision(a, b, c, d); val("p", p); val("m", m); }
    else if (fn == "revref") { pTruth a = rd(), b = rd(); truth_revision(*a, *b); tv("r", *a); tv("b", *b); }
    else if (fn == "map")
    {
        pTruth a = rd();
        val("w", a->w()); val("wp", a->w_p()); val("wm", a->w_m()); val("e", a->e());
        val("q", BUDGET::Budget::quality_from_truth(*a));
        val("fc_w", fc_to_w(a->f, a->c, a->k)); val("fc_wp", fc_to_w_plus(a->f, a->c, a->k)); val("fc_wm", fc_to_w_minus(a->f, a->c, a->k));
        Truth b(0.3f, 0.2f, a->k);
        b.set_w(a->w_p(), a->w());
        tv("back", b);
        tv("back2", truth_from_w((float)a->w_p(), (float)a->w(), a->k));
        float wp = -1, wm = -1;
        Truth m(*a);
        UNCERTAINTY_MAPPING_FUNCTIONS::w_from_truth(m, wp, wm);
        val("owp", wp); val("owm", wm);
#ifdef VERIF_TUPLE
        auto [tp, tm] = UNCERTAINTY_MAPPING_FUNCTIONS::w_from_truth(m);
        val("twp", tp); val("twm", tm);
#endif
    }
    else if (fn == "setw") { double wp, w, k; in >> wp >> w >> k; Truth b(0.3f, 0.2f, (float)k); b.set_w(wp, w); tv("r", b); tv("r2", truth_from_w((float)wp, (float)w, (float)k)); val("f", w_to_f((float)wp, (float)w)); val("c", w_to_c((float)w, (float)k)); }
    else if (fn == "bool")
    {
        double a, b, c, d;
        in >> a >> b >> c >> d;
        val("and2", And(a, b)); val("and3", And(a, b, c)); val("and4", And(a, b, c, d));
        val("or2", Or(a, b)); val("or3", Or(a, b, c)); val("or4", Or(a, b, c, d)); val("orl", Or({a, b, c, d})); val("orl1", Or({a})); val("orl2", Or({a, b}));
    }
    else if (fn == "proj")
    {
        pTruth a = rd();
        long long s, c, t, d;
        in >> s >> c >> t >> d;
        pTruth r = d < 0 ? TEMPORAL_FUNCTIONS::project(a, s, c, t) : TEMPORAL_FUNCTIONS::project(a, s, c, t, (size_t)d);
        tv("r", *r); tv("a", *a); val("alias", r == a);
    }
}
