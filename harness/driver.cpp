// Runs a script of operations on the real cNARS code and records one event (a JSON line) per operation.
// Nothing is judged here: the oracles are offline, in /verif/vlib. Byte strings travel in hexadecimal.
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Narsese/include/Narsese.h"
#include "Config.h"
#include "Global.h"
#include "utils/hash.h"
#include "utils/IndexVar.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <charconv>
#include <locale>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VERIF_ASAN 1
#endif

// ---------------------------------------------------------------- live memory
static long g_blocks = 0, g_total = 0;
static bool g_count = false;
#ifdef VERIF_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static void on_malloc(const volatile void *, size_t) { if (g_count) { g_blocks++; g_total++; } }
static void on_free(const volatile void *p) { if (g_count && p) g_blocks--; }
static long live_bytes() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long live_bytes() { return (long)mallinfo2().uordblks; }
#endif

using COMPOUND::Compound;
using INTERPRETER::Interpreter;
using NARSESEPARSER::NarseseParser;
using STATEMENT::Statement;
using TASK::pTask;
using TASK::Task;
using TERM::pTerm;
using TERM::pTerms;
using TERM::Term;
using TERM::Terms;
typedef CONNECTOR::Connector Connector;
typedef COPULA::Copula Copula;

// ---------------------------------------------------------------- state of the script
static std::map<int, pTerm> T;
static std::map<int, pTask> K;
static std::map<int, SENTENCE::pSentence> Z;
static std::map<int, std::shared_ptr<NarseseParser>> P;
static std::map<int, std::unique_ptr<Interpreter>> I;
static std::map<int, pTerms> S;
static std::map<int, EVIDENCE::pBase> E;
static std::map<int, SENTENCE::pStamp> M;
static std::map<int, TRUTH::pTruth> W;
static std::map<int, INDEXVAR::pIndexVar> X;

static std::string out; // the event under construction

static void put(const char *s) { out += s; }
static void put(const std::string &s) { out += s; }
static void num(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); out += b; }
static void unum(unsigned long long v) { char b[32]; snprintf(b, sizeof b, "%llu", v); out += b; }
static void dbl(double v)
{
    char b[64];
    if (v != v) strcpy(b, "\"nan\"");
    else if (v > 1e308) strcpy(b, "\"inf\"");
    else if (v < -1e308) strcpy(b, "\"-inf\"");
    else *std::to_chars(b, b + sizeof b - 1, v, std::chars_format::general, 17).ptr = 0; // independent of the locale
    out += b;
}
static void hex(const std::string &s)
{
    static const char *d = "0123456789abcdef";
    out += '"';
    for (unsigned char c : s) { out += d[c >> 4]; out += d[c & 15]; }
    out += '"';
}
static void key(const char *k) { if (out.back() != '{' && out.back() != '[') out += ','; out += '"'; out += k; out += "\":"; }
static std::string unhex(const std::string &h)
{
    std::string s;
    if (h == "-") return s;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)(v(h[i]) * 16 + v(h[i + 1]));
    return s;
}

static Interpreter &interp(int i)
{
    if (i < 0) return INTERPRETER::interpreter;
    if (!I.count(i)) I[i] = std::make_unique<Interpreter>();
    return *I[i];
}

static NarseseParser &parser(int k)
{
    if (k < 0) return *NARSESEPARSER::parser;
    if (!P.count(k)) P[k] = std::make_shared<NarseseParser>();
    return *P[k];
}

// ---------------------------------------------------------------- structural dump
// A term as a flat pre-order list of nodes
//   [kind, number of children, symbol/name/value, flags, hash, complexity, commutative, address]
// and, with `vars`, the three variable tables of each node: [[numbers],[positions]] per kind.
static void indexvars(const INDEXVAR::pIndexVar &v)
{
    put("[[");
    bool f = true;
    for (auto &i : v->indices) { if (!f) put(","); f = false; num(i ? *i : -999); }
    put("],[");
    f = true;
    for (auto &p : v->positions)
    {
        if (!f) put(",");
        f = false;
        put("[");
        bool g = true;
        for (int x : p) { if (!g) put(","); g = false; num(x); }
        put("]");
    }
    put("]]");
}

static void dump(Term &root, bool vars, Interpreter *ip, bool root_only = false)
{
    std::vector<Term *> todo{&root};
    bool first = true;
    put("[");
    long n = 0;
    while (!todo.empty())
    {
        Term &t = *todo.back();
        todo.pop_back();
        if (!first) put(",");
        first = false;
        if (++n > 4000000) abort();
        const char *kind = "?";
        std::vector<Term *> children;
        int comm = -1;
        put("[");
        if (t.is_statement())
        {
            kind = "s";
            children = {t.subject.get(), t.predicate.get()};
            comm = ((Statement &)t).is_commutative;
        }
        else if (t.is_compound())
        {
            kind = "c";
            for (auto it = t.terms->begin(); it != t.terms->end(); ++it) children.push_back((*it).get());
            comm = ((Compound &)t).is_commutative * 2 + t.terms->_is_commutative;
        }
        else if (t.is_atom()) kind = t.is_var ? "v" : t.is_interval ? "i" : "a";
        put("\""); put(kind); put("\",");
        num((long)children.size());
        put(",");
        if (*kind == 's') num(t.copula);
        else if (*kind == 'c') num(t.connector);
        else if (*kind == 'v')
        {
            int pre = ((VARIABLE::Variable &)t).prefix;
            auto &own = pre == 0 ? t._vars_independent : pre == 1 ? t._vars_dependent : t._vars_query;
            put("["); num(pre); put(","); num(own && own->indices.size() && own->indices.front() ? *own->indices.front() : -999); put("]");
        }
        else if (*kind == 'i') num(((INTERVAL::Interval &)t).interval);
        else if (ip && ip->check(t.hash_value)) hex(ip->dictionary[t.hash_value]);
        else put("null");
        put(",\"");
        bool fl[] = {t.is_var, t.is_ivar, t.is_dvar, t.is_qvar, t.has_var, t.has_ivar, t.has_dvar, t.has_qvar, t.is_interval, t.is_operation, t.is_higher_order, t.is_closed};
        for (bool b : fl) put(b ? "1" : "0");
        put("\",");
        unum(t.hash_value); put(",");
        num(t.complexity); put(",");
        num(comm); put(",");
        unum((unsigned long long)(size_t)&t);
        if (vars)
        {
            put(",[");
            indexvars(t._vars_independent); put(",");
            indexvars(t._vars_dependent); put(",");
            indexvars(t._vars_query);
            put("]");
        }
        put("]");
        for (size_t i = children.size(); i-- > 0 && !root_only;) todo.push_back(children[i]);
    }
    put("]");
}

static void truth(const TRUTH::pTruth &t)
{
    if (t == nullptr) { put("null"); return; }
    put("["); dbl(t->f); put(","); dbl(t->c); put(","); dbl(t->k); put("]");
}

static void base(const EVIDENCE::pBase &b)
{
    if (b == nullptr) { put("null"); return; }
    put("[");
    bool f = true;
    for (auto e : *b->_set) { if (!f) put(","); f = false; unum(e); }
    put("]");
}

static void stamp(const SENTENCE::pStamp &s)
{
    if (s == nullptr) { put("null"); return; }
    put("{");
    key("eternal"); num(s->is_eternal);
    key("occ"); num(s->t_occurrence);
    key("creat"); num(s->t_creation);
    key("put"); num(s->t_put);
    key("tense"); num((int)s->tense());
    key("ev"); base(s->evidential_base);
    put("}");
}

// what: d dump, v dump with variable tables, p print, c print colored
static void sentence(SENTENCE::Sentence &s, const std::string &what)
{
    key("punct"); num((int)s.punct);
    key("pred"); num(s.is_judgement() + 2 * s.is_question() + 4 * s.is_goal() + 8 * s.is_quest());
    key("truth"); truth(s.truth);
    key("stamp"); stamp(s.stamp);
    bool v = what.find('v') != std::string::npos;
    if (v || what.find('d') != std::string::npos) { key("term"); dump(*s.term, v, &INTERPRETER::interpreter); }
    if (what.find('p') != std::string::npos)
    {
        key("term_s"); hex(INTERPRETER::interpreter.interpret(*s.term));
        key("sent_s"); hex(INTERPRETER::interpreter.interpret(s));
    }
    if (what.find('c') != std::string::npos)
    {
        key("term_c"); hex(INTERPRETER::interpreter.interpret(*s.term, true));
        key("sent_c"); hex(INTERPRETER::interpreter.interpret(s, true));
    }
}

static void task(Task &t, const std::string &what)
{
    key("budget"); put("["); dbl(t.budget->priority); put(","); dbl(t.budget->durability); put(","); dbl(t.budget->quality); put("]");
    if (what.find('p') != std::string::npos) { key("task_s"); hex(INTERPRETER::interpreter.interpret(t)); }
    if (what.find('c') != std::string::npos) { key("task_c"); hex(INTERPRETER::interpreter.interpret(t, true)); }
    sentence(*t.sentence, what);
}

static pTask do_parse(NarseseParser &p, const std::string &text)
{
    if (text.size() % 2) return p.parse_task(text.c_str()); // both forms are used
    std::string copy(text); // the parser takes a reference to non-const
    return p.parse_task(copy);
}

static void registry(Interpreter &ip)
{
    put("{");
    key("names"); put("[");
    bool f = true;
    for (auto &kv : ip.dictionary)
    {
        if (!f) put(",");
        f = false;
        put("["); hex(kv.second); put(","); unum(kv.first); put(",");
        auto inv = ip.dictionary_inv.find(kv.second);
        num(inv != ip.dictionary_inv.end() && inv->second == kv.first); put(",");
        auto ob = ip.objects.find(kv.first);
        if (ob == ip.objects.end() || ob->second == nullptr) put("0,0,0");
        else
        {
            pTerm &t = *ob->second;
            num(t->hash_value == kv.first); put(",");
            unum((size_t)t.get()); put(",");
            num(t.use_count());
        }
        put("]");
    }
    put("]");
    key("sizes"); put("["); num(ip.dictionary.size()); put(","); num(ip.dictionary_inv.size()); put(","); num(ip.objects.size()); put(","); num(ip.count.size()); put("]");
    put("}");
}

static float *config_float(const std::string &n)
{
#define C(x) if (n == #x) return &CONFIG::x;
    C(priority) C(durability) C(quality) C(f) C(c) C(c_judgement) C(c_goal) C(k) C(p_judgement) C(d_judgement) C(p_question) C(d_question)
    C(p_quest) C(d_quest) C(p_goal) C(d_goal)
#undef C
    return nullptr;
}
static unsigned *config_uint(const std::string &n)
{
    if (n == "temporal_duration") return &CONFIG::temporal_duration;
    if (n == "maximum_evidential_base_length") return &CONFIG::maximum_evidential_base_length;
    return nullptr;
}

void verif_functions(std::istringstream &in, const std::string &fn, std::string &o); // functions.cpp
unsigned long verif_other_tu_time();                                                 // other.cpp
unsigned long verif_other_tu_input_id();
void verif_other_tu_tables(std::string &o);

static const char *term_args(std::istringstream &in, std::vector<pTerm> &v)
{
    int n, x;
    in >> n;
    for (int i = 0; i < n; i++)
    {
        in >> x;
        if (!T.count(x)) return "no such slot";
        v.push_back(T[x]);
    }
    return nullptr;
}

static void terms_out(const Terms &s)
{
    key("n"); num(s.size());
    key("seq"); put("[");
    bool f = true;
    for (auto it = s.begin(); it != s.end(); ++it) { if (!f) put(","); f = false; unum((size_t)(*it).get()); }
    put("]");
}

static void run(std::istringstream &in, const std::string &op)
{
    int a, b, c, n;
    std::string s, w;
    if (op == "q" || op == "k") // parse: report, then drop or keep. q <parser> <what> <text> | k <parser> <what> <slot> <text>
    {
        in >> a >> w;
        if (op == "k") in >> b;
        in >> s;
        auto t = do_parse(parser(a), unhex(s));
        key("ok"); num(t != nullptr);
        if (t != nullptr) task(*t, w);
        if (op == "k") { if (t != nullptr) K[b] = t; else K.erase(b); }
    }
    else if (op == "e") // e <parser> <text>: parse, and what was written to the standard streams meanwhile
    {
        in >> a >> s;
        static FILE *files[2] = {tmpfile(), tmpfile()};
        auto &p = parser(a);
        std::string text = unhex(s), got[2];
        int saved[2];
        fflush(nullptr);
        std::cout.flush();
        for (int i = 0; i < 2; i++)
        {
            if (ftruncate(fileno(files[i]), 0)) abort();
            lseek(fileno(files[i]), 0, SEEK_SET);
            saved[i] = dup(i + 1);
            dup2(fileno(files[i]), i + 1);
        }
        auto t = do_parse(p, text);
        std::cout.flush();
        fflush(stdout);
        fflush(stderr);
        for (int i = 0; i < 2; i++)
        {
            dup2(saved[i], i + 1);
            close(saved[i]);
            char b[4096];
            lseek(fileno(files[i]), 0, SEEK_SET);
            for (ssize_t n; (n = read(fileno(files[i]), b, sizeof b)) > 0;) got[i].append(b, n);
        }
        key("ok"); num(t != nullptr);
        key("out"); hex(got[0]);
        key("err"); hex(got[1]);
    }
    else if (op == "rt") // rt <parser> <text>: parse, print, and parse what was printed (task, sentence, term), all alive
    {
        in >> a >> s;
        auto &p = parser(a);
        auto t = do_parse(p, unhex(s));
        key("ok"); num(t != nullptr);
        if (t == nullptr) return;
        auto &ip = INTERPRETER::interpreter;
        size_t names = ip.dictionary.size(), objects = ip.objects.size();
        task(*t, "d");
        std::string f[3] = {ip.interpret(*t), ip.interpret(*t->sentence), ip.interpret(*t->sentence->term) + "."};
        key("printed"); put("["); hex(f[0]); put(","); hex(f[1]); put(","); hex(f[2]); put("]");
        key("reg"); put("["); num((long)ip.dictionary.size() - (long)names); put(","); num((long)ip.objects.size() - (long)objects); put("]");
        key("after"); dump(*t->sentence->term, false, &ip);
        key("again"); put("[");
        for (int i = 0; i < 3; i++)
        {
            if (i) put(",");
            auto u = do_parse(p, f[i]);
            put("{"); key("ok"); num(u != nullptr);
            if (u != nullptr) task(*u, i == 0 ? "dp" : "d");
            put("}");
        }
        put("]");
    }
    else if (op == "rtterm") // rtterm <slot>: print a term and parse what was printed as a judgement of it
    {
        in >> a;
        std::string f = INTERPRETER::interpreter.interpret(*T[a]) + ".";
        key("printed"); hex(f);
        auto u = do_parse(parser(-1), f);
        key("again"); put("{"); key("ok"); num(u != nullptr);
        if (u != nullptr) task(*u, "d");
        put("}");
    }
    else if (op == "newparser") { in >> a; P[a] = std::make_shared<NarseseParser>(); }
    else if (op == "delparser") { in >> a; P.erase(a); }
    else if (op == "leak") // leak <n> <text>: live blocks and bytes around n parses of a long-lived parser, and around a parser's whole life
    {
        in >> n >> s;
        s = unhex(s);
        auto &p = parser(-2 < 0 ? 900 : 0);
        bool ok = false;
        for (int i = 0; i < 2; i++) { auto t = do_parse(p, s); ok = t != nullptr; }
        long b0 = g_blocks, y0 = live_bytes();
        for (int i = 0; i < n; i++) { auto t = do_parse(p, s); }
        long b1 = g_blocks, y1 = live_bytes();
        { NarseseParser fresh; auto t = do_parse(fresh, s); } // lazily allocated statics
        long b2 = g_blocks, y2 = live_bytes();
        { NarseseParser fresh; auto t = do_parse(fresh, s); }
        long b3 = g_blocks, y3 = live_bytes();
        key("ok"); num(ok);
        key("kept"); put("["); num(b1 - b0); put(","); num(y1 - y0); put("]");
        key("fresh"); put("["); num(b3 - b2); put(","); num(y3 - y2); put("]");
        key("reg"); num(INTERPRETER::interpreter.dictionary.size());
    }
    else if (op == "soak") // soak <parser> <n> <kept> <texts>: n parses in turn, the last <kept> tasks alive; each compared with the first parse of its text
    {
        in >> a >> n >> b;
        std::vector<std::string> texts, first;
        while (in >> s) texts.push_back(unhex(s));
        first.resize(texts.size());
        std::vector<pTask> kept(std::max(b, 1));
        std::set<size_t> evidence;
        long accepted = 0, wrong = -1, twice = -1, late = -1, none = -1;
        std::string was, is;
        for (int i = 0; i < n; i++)
        {
            size_t j = i % texts.size();
            auto t = do_parse(parser(a), texts[j]);
            std::string f = "rejected";
            if (t != nullptr)
            {
                accepted++;
                auto &st = *t->sentence->stamp;
                f = INTERPRETER::interpreter.interpret(*t);
                std::sort(f.begin(), f.end());
                f += " " + std::to_string(t->sentence->term->complexity) + " " + std::to_string(st.is_eternal) + " " + std::to_string(st.t_occurrence) + " " + std::to_string((int)st.tense());
                f += " " + std::to_string(t->budget->priority) + " " + std::to_string(t->budget->durability) + " " + std::to_string(t->budget->quality);
                if (t->sentence->truth != nullptr) f += " " + std::to_string(t->sentence->truth->f) + " " + std::to_string(t->sentence->truth->c);
                for (auto *v : {&t->sentence->term->_vars_independent, &t->sentence->term->_vars_dependent, &t->sentence->term->_vars_query})
                {
                    std::vector<int> ns;
                    for (auto &x : (*v)->indices) ns.push_back(*x);
                    std::sort(ns.begin(), ns.end());
                    f += " /";
                    for (int x : ns) f += " " + std::to_string(x);
                }
                auto &ev = *st.evidential_base->_set;
                if (ev.empty() && none < 0) none = i;
                for (auto e : ev) if (!evidence.insert(e).second && twice < 0) twice = i;
                if (st.t_creation != (long long)GLOBAL::time && late < 0) late = i;
                kept[i % kept.size()] = t;
            }
            if (i < (int)texts.size()) first[j] = f;
            else if (f != first[j] && wrong < 0) wrong = i, was = first[j], is = f;
        }
        kept.clear();
        key("accepted"); num(accepted); key("evidence"); num(evidence.size()); key("wrong"); num(wrong); key("twice"); num(twice); key("late"); num(late); key("bare"); num(none);
        if (wrong >= 0) { key("was"); hex(was); key("is"); hex(is); }
        key("names"); num(INTERPRETER::interpreter.dictionary.size());
    }
    else if (op == "flock") // flock <interp> <handles|names> <n>: many handles of one name, or many names, at once
    {
        in >> a >> w >> n;
        auto &ip = interp(a);
        size_t before = ip.dictionary.size();
        std::vector<pTerm> v;
        auto name = [&](int i) { return w == "names" ? "flock" + std::to_string(i) : std::string("flock"); };
        auto make = [&](int i) { auto s = name(i); return Term::create(s.c_str(), (void *)&ip); };
        auto named = [&](const pTerm &t, int i) { return ip.check(t->hash_value) && ip.dictionary[t->hash_value] == name(i); };
        for (int i = 0; i < n; i++) v.push_back(make(i));
        long other = 0, misnamed = 0, lost = 0, changed = 0;
        std::set<Term *> atoms;
        for (int i = 0; i < n; i++) atoms.insert(v[i].get()), misnamed += !named(v[i], i);
        key("atoms"); num(atoms.size()); key("misnamed"); num(misnamed); key("registered"); num(ip.dictionary.size() - before);
        for (int i = 0; i < n; i++) // all but every 1000th go
            if (i % 1000 != 999) v[i] = pTerm();
        for (int i = 999; i < n; i += 1000)
        {
            lost += !named(v[i], i);
            auto again = make(i);
            changed += again.get() != v[i].get();
        }
        key("lost"); num(lost); key("changed"); num(changed); key("rest"); num(ip.dictionary.size() - before);
        for (int i = 0; i < n; i += 7) { auto again = make(i); other += !named(again, i); } // names come and go while others stay
        key("renamed"); num(other);
        v.clear();
        key("left"); num(ip.dictionary.size() - before);
    }
    else if (op == "mem") { key("blocks"); num(g_blocks); key("bytes"); num(live_bytes()); key("total"); num(g_total); }
    else if (op == "count") { g_count = true; }
    else if (op == "task") { in >> w >> a; if (K.count(a)) task(*K[a], w); else { key("none"); num(1); } }
    else if (op == "poke") // change every value of a task in place
    {
        in >> a;
        if (!K.count(a)) { key("none"); num(1); return; }
        auto &t = *K[a];
        t.budget->priority = t.budget->durability = t.budget->quality = 0.125;
        if (t.sentence->truth != nullptr) t.sentence->truth->f = t.sentence->truth->c = 0.125;
        auto &m = *t.sentence->stamp;
        m.t_occurrence = m.t_creation = m.t_put = -77;
        m.is_eternal = false;
        m.evidential_base->add(1ull << 40);
    }
    else if (op == "droptask") { in >> a; K.erase(a); }
    else if (op == "droptasks") { K.clear(); }
    else if (op == "taskterm") { in >> a >> b; if (K.count(b)) T[a] = K[b].term(); else { key("none"); num(1); } }
    else if (op == "mk") { in >> a >> b >> s; s = unhex(s); T[b] = Term::create(s.c_str(), a < 0 ? nullptr : (void *)&interp(a)); }
    else if (op == "anon") { in >> a; T[a] = Term::create(); }
    else if (op == "op") { in >> a; T[a] = pTerm(new OPERATION::Operation()); }
    else if (op == "iv") { in >> a >> b; T[a] = pTerm(new INTERVAL::Interval(b)); }
    else if (op == "ivadd") // Interval + and +=
    {
        in >> a >> b >> c;
        INTERVAL::Interval x(b), y(c);
        auto z = x + y;
        pTerm p(new INTERVAL::Interval(b)), q(new INTERVAL::Interval(b + c));
        (INTERVAL::Interval &)*p += y;
        key("sum"); num((int)z); key("h"); unum(z.hash_value);
        key("sum2"); num((int)(INTERVAL::Interval &)*p); key("h2"); unum(UTILS::hash(*p)); key("h3"); unum(UTILS::hash(*q)); key("eq"); num(*p == *q);
        T[a] = p;
    }
    else if (op == "var") // var <slot> <kind> <number> <name>
    {
        in >> a >> b >> c >> s;
        pTerm v(new VARIABLE::Variable((VARIABLE::VarPrefix)b, VARIABLE::Repr[b] + unhex(s)));
        (b == 0 ? v->_vars_independent : b == 1 ? v->_vars_dependent : v->_vars_query)->add(c, {});
        T[a] = v;
    }
    else if (op == "cp") { in >> a >> b; T[a] = T[b]; }
    else if (op == "cpn") { in >> a >> b; pTerm x(T[b]); T.erase(a); T.emplace(a, x); }
    else if (op == "null") { in >> a; T[a] = pTerm(); }
    else if (op == "drop") { in >> a; T.erase(a); }
    else if (op == "drops") { T.clear(); S.clear(); }
    else if (op == "vec") { pTerm x; std::vector<pTerm> v; if (auto e = term_args(in, v)) { key("none"); put("1"); (void)e; } v.resize(v.size() / 2); v.shrink_to_fit(); x = v.empty() ? pTerm() : v[0]; }
    else if (op == "subj") { in >> a >> b; pTerm x = T[b]->subject; T[a] = x; }
    else if (op == "pred") { in >> a >> b; pTerm x = T[b]->predicate; T[a] = x; }
    else if (op == "comp") { in >> a >> b >> c; auto it = T[b]->terms->begin(); for (int i = 0; i < c; i++) ++it; pTerm x = *it; T[a] = x; }
    else if (op == "st") // st <slot> <subject> <copula> <predicate> <how>: 0 create, 1 input
    {
        in >> a >> b >> c >> n;
        int how;
        in >> how;
        pTerm x = how ? pTerm(new Statement(T[b], (Copula)c, T[n], true)) : (pTerm)Statement::create(T[b], (Copula)c, T[n]);
        T[a] = x;
    }
    else if (op == "cm") // cm <slot> <connector> <how> <n> <slots>
    {
        int how;
        in >> a >> b >> how;
        std::vector<pTerm> v;
        if (auto e = term_args(in, v)) { key("none"); hex(e); return; }
        auto conn = (Connector)b;
        std::list<pTerm> l(v.begin(), v.end());
        pTerm x;
        if (how == 0) x = Compound::create(conn, v);
        else if (how == 1) x = Compound::create(conn, l);
        else if (how == 2) x = pTerm(new Compound(conn, v, true));
        else if (how == 3) x = pTerm(new Compound(conn, l, true));
        else if (how == 4) x = pTerm(new Compound(conn, Terms::create(v, CONNECTOR::is_commutative(conn)), false));
        else if (how == 5) { auto ts = Terms::create(CONNECTOR::is_commutative(conn)); for (auto &e : v) ts->push_back(e); x = pTerm(new Compound(conn, ts, true)); }
        else if (how == 6 && v.size() == 1) x = pTerm(new Compound(conn, v[0]));
        else if (how == 7 && v.size() == 2) x = pTerm(new Compound(conn, {v[0], v[1]}));
        else if (how == 8 && v.size() == 2) x = conn == Connector::ExtensionalSet ? Compound::ExtensionalSet({v[0], v[1]}) : Compound::IntensionalSet({v[0], v[1]});
        else if (how == 9 && v.size() == 3) x = pTerm(new Compound(conn, {v[0], v[1], v[2]}, true));
        else { key("none"); put("1"); return; }
        T[a] = x;
    }
    else if (op == "clone") { in >> a >> b; T[a] = Term::clone(T[b]); }
    else if (op == "has") { in >> a; key("has"); num(T.count(a) && T[a] != nullptr); }
    else if (op == "dump") { in >> w >> a >> b; key("term"); dump(*T[a], w == "v", b == -2 ? nullptr : &interp(b)); key("hash"); unum(UTILS::hash(*T[a])); }
    else if (op == "print") { in >> a >> b; key("s"); hex(interp(b).interpret(*T[a])); key("c"); hex(interp(b).interpret(*T[a], true)); }
    else if (op == "repr") { in >> a; key("s"); hex(T[a].__repr__(nullptr)); key("g"); hex(T[a].__repr__(&INTERPRETER::interpreter)); }
    else if (op == "rehash") // the hash recomputed from scratch
    {
        in >> a;
        size_t h0 = T[a]->hash_value, h1 = UTILS::hash(*T[a]);
        key("h"); put("["); unum(h0); put(","); unum(h1); put("]");
    }
    else if (op == "root") { in >> a; key("root"); dump(*T[a], false, nullptr, true); } // as `dump`, without the components
    else if (op == "cmp") // all pairs of the given slots: equality and order
    {
        std::vector<pTerm> v;
        if (term_args(in, v)) { key("none"); put("1"); return; }
        key("eq"); put("[");
        for (size_t i = 0; i < v.size(); i++) { if (i) put(","); put("\""); for (auto &y : v) put(*v[i] == *y ? "1" : "0"); put("\""); }
        put("]");
        key("lt"); put("[");
        for (size_t i = 0; i < v.size(); i++) { if (i) put(","); put("\""); for (auto &y : v) put(*v[i] < *y ? "1" : "0"); put("\""); }
        put("]");
    }
    else if (op == "renum") // renum <slot> <kind> <delta>: give every variable of the kind another number, in place
    {
        in >> a >> b >> c;
        auto &v = b == 0 ? T[a]->_vars_independent : b == 1 ? T[a]->_vars_dependent : T[a]->_vars_query;
        std::set<int *> seen;
        for (auto &i : v->indices)
            if (seen.insert(i.get()).second) *i += c;
        key("n"); num(seen.size());
    }
    else if (op == "norm") // norm <slot>: the variable tables of a term, their normal forms and their hashes
    {
        in >> a;
        INDEXVAR::pIndexVar v[] = {T[a]->_vars_independent, T[a]->_vars_dependent, T[a]->_vars_query};
        key("tables"); put("[");
        for (int i = 0; i < 3; i++)
        {
            if (i) put(",");
            put("["); indexvars(v[i]); put(",[");
            bool f = true;
            for (int x : *v[i]->indices_normalized()) { if (!f) put(","); f = false; num(x); }
            put("],"); unum(v[i]->__hash__()); put("]");
        }
        put("]");
    }
    else if (op == "ix") // variable tables by themselves: ix new n | con n m how | add n number len path | rem n len path | rebuild n | clone n m | get n
    {
        in >> w >> a;
        auto path = [&] { std::vector<int> p; int k, x; in >> k; for (int i = 0; i < k; i++) { in >> x; p.push_back(x); } return p; };
        if (w == "new") X[a] = INDEXVAR::IndexVar::create();
        else if (w == "con") { in >> b; INDEXVAR::IndexVar::connect(X[a], X[b]); }
        else if (w == "add") { in >> b; auto p = path(); auto q = X[a]->add(b, p); key("v"); num(*q); }
        else if (w == "rem") { auto p = path(); X[a]->remove(p); }
        else if (w == "rebuild") X[a]->rebuild();
        else if (w == "clone") { in >> b; X[a] = INDEXVAR::IndexVar::clone(X[b]); }
        else if (w == "drop") X.erase(a);
        else
        {
            key("t"); indexvars(X[a]);
            key("norm"); put("[");
            bool f = true;
            for (int x : *X[a]->indices_normalized()) { if (!f) put(","); f = false; num(x); }
            put("]"); key("h"); unum(X[a]->__hash__());
            key("cmp"); put("[");
            f = true;
            while (in >> b) { if (!f) put(","); f = false; num(*X[a] == X[b].get()); }
            put("]");
        }
    }
    else if (op == "ts") // collections: ts <slot> new <commutative> <how> <n> <slots>; ts <slot> union|inter|diff <n> <collections>; ts <slot> push <slots>
    {
        in >> a >> w;
        if (w == "new")
        {
            in >> b >> c;
            std::vector<pTerm> v;
            if (term_args(in, v)) { key("none"); put("1"); return; }
            std::list<pTerm> l(v.begin(), v.end());
            if (c == 0) S[a] = Terms::create(v, b);
            else if (c == 1) S[a] = Terms::create(l, b);
            else if (c == 2) { auto t = Terms::create(b); for (auto &x : v) t->push_back(x); S[a] = t; }
            else { auto t = Terms::create(v, b); S[a] = std::make_shared<Terms>(*t, (bool)b); }
        }
        else if (w == "push") { std::vector<pTerm> v; if (term_args(in, v)) { key("none"); put("1"); return; } for (auto &x : v) S[a]->push_back(x); }
        else if (w == "drop") { S.erase(a); return; }
        else
        {
            in >> n;
            std::vector<pTerms> v;
            for (int i = 0; i < n; i++) { in >> b; v.push_back(S[b]); }
            S[a] = w == "union" ? Terms::union_(v) : w == "inter" ? Terms::intersection(v) : Terms::difference(v);
        }
        terms_out(*S[a]);
    }
    else if (op == "iter") // every way of walking a collection
    {
        in >> a;
        auto &ts = *S[a];
        n = (int)ts.size();
        auto seq = [&](auto f) { put("["); bool first = true; f([&](const pTerm &t) { if (!first) put(","); first = false; unum((size_t)t.get()); }); put("]"); };
        key("n"); num(n);
        key("pre"); seq([&](auto e) { for (auto it = ts.begin(); it != ts.end(); ++it) e(*it); });
        key("post"); seq([&](auto e) { for (auto it = ts.begin(); it != ts.end();) { auto old = it++; e(*old); } });
        key("rng"); seq([&](auto e) { for (auto t : ts) e(t); });
        key("plus"); seq([&](auto e) { for (int i = 0; i < n; i++) e(*(ts.begin() + i)); });
        key("minus"); seq([&](auto e) { for (int i = n; i >= 1; i--) e(*(ts.end() - i)); });
        key("copy"); seq([&](auto e) { auto it = ts.begin(); auto other = ts.end(); other = it; for (int i = 0; i < n; i++) { auto cp = other; ++other; e(*cp); } });
        key("vec"); seq([&](auto e) { std::vector<pTerm> v(ts); for (auto &t : v) e(t); });
        key("eq"); put("["); num(ts.begin() == ts.end()); put(","); num(ts.begin() != ts.end()); put(","); num(ts.begin() + n == ts.end()); put(","); num(ts.end() - n == ts.begin()); put("]");
    }
    else if (op == "reg") { in >> a; key("reg"); registry(interp(a)); }
    // The registry's own operations, on an instance of its own: ra <command> ...
    else if (op == "ra")
    {
        static INTERPRETER::Interpreter box;
        static std::map<size_t, std::weak_ptr<Term>> alive;
        static std::map<size_t, TERM::pTerm *> object;
        std::string what;
        size_t n;
        in >> what;
        key("r");
        if (what == "put" || what == "puts") { int m = 1; in >> n >> w; if (what == "puts") in >> m; if (alive[n].expired()) { object[n] = new pTerm(new Term()); alive[n] = *object[n]; } while (m-- > 0) box.put(n, unhex(w), object[n]); num(0); }
        else if (what == "erase") { in >> n; num(box.erase(n)); }
        else if (what == "erases") { int m, did = 0; in >> n >> m; while (m-- > 0) did += box.erase(n); num(did); }
        else if (what == "remove") { in >> n; num(box.remove(n)); }
        else if (what == "rmname") { in >> w; num(box.remove_by_name(unhex(w))); }
        else { box.reset(); num(0); }
        key("s"); put("[");
        bool first = true;
        for (auto &p : alive)
        {
            if (!first) put(",");
            first = false;
            n = p.first;
            put("["); unum(n); put(","); num(!p.second.expired()); put(","); num(box.check(n)); put(","); num(box.check_count(n));
            put(","); if (box.check(n)) hex(box.get(n)); else num(0);
            put(","); num(box.check(n) && box.get_object(n) == object[n] && object[n]->get() == p.second.lock().get());
            put("]");
        }
        put("]");
        key("names"); put("[");
        first = true;
        for (; in >> w;) { auto s = unhex(w); if (!first) put(","); first = false; bool is = box.check_by_name(s); put("["); num(is); put(","); if (is) unum(box.get_by_name(s)); else num(0); put("]"); }
        put("]");
        key("sizes"); put("["); num(box.dictionary.size()); put(","); num(box.objects.size()); put(","); num(box.dictionary_inv.size()); put("]");
    }
    else if (op == "delinterp") { in >> a; I.erase(a); }
    else if (op == "resetinterp") { in >> a; interp(a).reset(); }
    else if (op == "uses") { in >> a; key("uses"); num(T.count(a) ? T[a].use_count() : 0); }
    else if (op == "addr") { in >> a; key("addr"); unum((size_t)T[a].get()); key("h"); unum(UTILS::hash(*T[a])); }
    // ------------------------------------------------------------ sentences
    else if (op == "sent") // sent <slot> <term> <punct> <truth slot or -1> <stamp slot or -1> <how>
    {
        int p, t, m, how;
        in >> a >> b >> p >> t >> m >> how;
        TRUTH::pTruth tv = t < 0 ? nullptr : W[t];
        SENTENCE::pStamp st = m < 0 ? nullptr : M[m];
        if (how == 0) Z[a] = SENTENCE::Sentence::create(T[b], (SENTENCE::PUNCTUATION::Punctuation)p, tv, st);
        else if (p == 0) Z[a] = SENTENCE::pSentence(new SENTENCE::Judgement(T[b], tv, st));
        else if (p == 1) Z[a] = SENTENCE::pSentence(new SENTENCE::Question(T[b], st));
        else if (p == 2) Z[a] = SENTENCE::pSentence(new SENTENCE::Goal(T[b], tv, st));
        else Z[a] = SENTENCE::pSentence(new SENTENCE::Quest(T[b], st));
    }
    else if (op == "tasksent") { in >> a >> b; if (K.count(b)) Z[a] = K[b].sentence(); else { key("none"); num(1); } }
    else if (op == "sentout") { in >> w >> a; sentence(*Z[a], w); key("repr"); hex(Z[a].__repr__(nullptr)); }
    else if (op == "dropsent") { in >> a; Z.erase(a); }
    else if (op == "mktask") // mktask <slot> <sentence> <p> <d> <q>
    {
        double p, d, q;
        in >> a >> b >> p >> d >> q;
        K[a] = pTask(new Task(BUDGET::Budget::create(p, d, q), Z[b]));
    }
    else if (op == "truth") { double f, cc, k; in >> a >> f >> cc >> k; W[a] = TRUTH::Truth::create(f, cc, k); key("t"); truth(W[a]); key("s"); hex(W[a]->__repr__()); }
    else if (op == "gettruth") { in >> a; key("t"); truth(W[a]); }
    // ------------------------------------------------------------ stamps and evidence
    else if (op == "time") { unsigned long t; in >> t; GLOBAL::time = t; key("other"); unum(verif_other_tu_time()); key("mine"); unum(GLOBAL::time); }
    else if (op == "ids") { key("a"); unum(GLOBAL::get_input_id()); key("b"); unum(verif_other_tu_input_id()); key("c"); unum(GLOBAL::get_input_id()); }
    else if (op == "cfg")
    {
        double v;
        in >> s >> v;
        if (auto f = config_float(s)) { *f = (float)v; key("v"); dbl(*f); }
        else if (auto u = config_uint(s)) { *u = (unsigned)v; key("v"); unum(*u); }
        else { key("none"); num(1); }
    }
    else if (op == "getcfg")
    {
        for (auto name : {"priority", "durability", "quality", "f", "c", "c_judgement", "c_goal", "k", "p_judgement", "d_judgement", "p_question", "d_question", "p_quest", "d_quest", "p_goal", "d_goal"})
        { key(name); dbl(*config_float(name)); }
        for (auto name : {"temporal_duration", "maximum_evidential_base_length"}) { key(name); unum(*config_uint(name)); }
    }
    else if (op == "stamp") // stamp <slot> eternal <0|1> | occ <t> | full <occ> <creation> <put> <base or -1> <eternal>
    {
        in >> a >> w;
        using SENTENCE::Stamp;
        if (w == "eternal") { in >> b; M[a] = b ? Stamp::create(true) : Stamp::create(false); }
        else if (w == "occ") { in >> b; M[a] = Stamp::create((signed int)b); }
        else { int o, cr, pu, bs, et; in >> o >> cr >> pu >> bs >> et; M[a] = Stamp::create(o, cr, pu, bs < 0 ? nullptr : E[bs], (bool)et); }
        key("stamp"); stamp(M[a]);
    }
    else if (op == "stampget") { in >> a; key("stamp"); stamp(M[a]); }
    else if (op == "eternalize") { in >> a; M[a]->eternalize(); key("stamp"); stamp(M[a]); }
    else if (op == "stampext") { in >> a >> b; M[a]->extend_evidenital_base(*E[b]); key("stamp"); stamp(M[a]); key("other"); base(E[b]); }
    else if (op == "stampsext") { in >> a >> b; M[a]->extend_evidenital_base(*M[b]->evidential_base); key("stamp"); stamp(M[a]); key("other"); base(M[b]->evidential_base); }
    else if (op == "eb") // evidential bases
    {
        in >> w;
        auto show = [&](int i) { key("set"); base(E[i]); key("size"); num(E[i]->size()); key("h"); unum(UTILS::hash(*E[i])); };
        if (w == "new") { in >> a >> n; std::set<size_t> v; for (int i = 0; i < n; i++) { size_t x; in >> x; v.insert(x); } E[a] = std::make_shared<EVIDENCE::Base>(v); show(a); }
        else if (w == "auto") { in >> a; E[a] = std::make_shared<EVIDENCE::Base>(); show(a); }
        else if (w == "add") { size_t x; in >> a >> x; E[a]->add(x); show(a); }
        else if (w == "ext") { in >> a >> b; E[a]->extend(*E[b]); show(a); key("other"); base(E[b]); }
        else if (w == "il") { in >> a >> b >> c; auto r = EVIDENCE::Base::interleave(*E[b], *E[c]); E[a] = r; show(a); key("one"); base(E[b]); key("two"); base(E[c]); }
        else if (w == "ov") { in >> a >> b; key("ov"); put("["); num(E[a]->is_overlaped(*E[b])); put(","); num(E[b]->is_overlaped(*E[a])); put("]"); key("one"); base(E[a]); key("two"); base(E[b]); }
        else if (w == "get") { in >> a; show(a); }
        else if (w == "drop") { in >> a; E.erase(a); }
    }
    // ------------------------------------------------------------ tables and functions
    else if (op == "tables")
    {
        key("copulas"); put("[");
        for (int i = 0; i <= 11; i++)
        {
            auto x = (Copula)i;
            if (i) put(",");
            put("["); hex(COPULA::Repr[i]); put(","); num(COPULA::is_commutative(x)); put(","); num(COPULA::is_higher_order(x)); put(","); num(COPULA::is_temporal(x)); put(",");
            num((int)COPULA::symmetrize(x)); put(","); num((int)COPULA::reverse(x)); put("]");
        }
        put("]");
        key("copula_names"); put("[");
        int cn[] = {COPULA::INHERITANCE, COPULA::SIMILARITY, COPULA::INSTANCE, COPULA::PROPERTY, COPULA::INSTANCEPROPERTY, COPULA::IMPLICATION, COPULA::PREDICTIVEIMPLICATION, COPULA::CONCURRENTIMPLICATION, COPULA::RETROSPECTIVEIMPLICATION, COPULA::EQUIVALENCE, COPULA::PREDICTIVEEQUIVALENCE, COPULA::CONCURRENTEQUIVALENCE,
            Copula::Inheritance, Copula::Similarity, Copula::Instance, Copula::Property, Copula::InstanceProperty, Copula::Implication, Copula::PredictiveImplication, Copula::ConcurrentImplication, Copula::RetrospectiveImplication, Copula::Equivalence, Copula::PredictiveEquivalence, Copula::ConcurrentEquivalence};
        for (int i = 0; i < 24; i++) { if (i) put(","); num(cn[i]); }
        put("]");
        key("connectors"); put("[");
        for (int i = 0; i <= 14; i++)
        {
            auto x = (Connector)i;
            if (i) put(",");
            put("["); hex(CONNECTOR::Repr[i]); put(","); num(CONNECTOR::is_commutative(x)); put(","); num(CONNECTOR::is_reducible(x)); put(","); num(CONNECTOR::is_single_only(x)); put(",");
            num(CONNECTOR::is_double_only(x)); put(","); num(CONNECTOR::is_multiple_only(x)); put(","); num(CONNECTOR::is_temporal(x)); put(",\"");
            for (unsigned k = 0; k < 300; k++) put(CONNECTOR::check_valid(x, k) ? "1" : "0");
            put("\"]");
        }
        put("]");
        key("valid_big"); put("[");
        unsigned big[] = {511, 512, 513, 1024, 65535, 65536, 65537, 1000000, 16777216, 2147483647u, 2147483648u, 4294967295u};
        for (int i = 0; i <= 14; i++) { if (i) put(","); put("\""); for (unsigned k : big) put(CONNECTOR::check_valid((Connector)i, k) ? "1" : "0"); put("\""); }
        put("]");
        key("connector_names"); put("[");
        int kn[] = {CONNECTOR::CONJUNCTION, CONNECTOR::DISJUNCTION, CONNECTOR::PRODUCT, CONNECTOR::PARALLEL_EVENTS, CONNECTOR::SEQUENTIAL_EVENTS, CONNECTOR::INTENSIONAL_INTERSECTION, CONNECTOR::EXTENSIONAL_INTERSECTION, CONNECTOR::EXTENSIONAL_DIFFERENCE, CONNECTOR::INTENSIONAL_DIFFERENCE, CONNECTOR::NEGATION, CONNECTOR::INTENSIONAL_SET, CONNECTOR::EXTENSIONAL_SET, CONNECTOR::INTENSIONAL_IMAGE, CONNECTOR::EXTENSIONAL_IMAGE, CONNECTOR::LIST,
            Connector::Conjunction, Connector::Disjunction, Connector::Product, Connector::ParallelEvents, Connector::SequentialEvents, Connector::IntensionalIntersection, Connector::ExtensionalIntersection, Connector::ExtensionalDifference, Connector::IntensionalDifference, Connector::Negation, Connector::IntensionalSet, Connector::ExtensionalSet, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::List};
        for (int i = 0; i < 30; i++) { if (i) put(","); num(kn[i]); }
        put("]");
        key("tenses"); put("["); for (int i = 0; i < 4; i++) { if (i) put(","); hex(TENSE::Repr[i]); } put("]");
        key("tense_names"); put("["); num(TENSE::Tense::Past); put(","); num(TENSE::Tense::Present); put(","); num(TENSE::Tense::Future); put(","); num(TENSE::Tense::Eternal); put("]");
        key("puncts"); put("["); for (int i = 0; i < 4; i++) { if (i) put(","); hex(SENTENCE::PUNCTUATION::Repr[i]); } put("]");
        using namespace SENTENCE::PUNCTUATION;
        key("punct_names"); put("["); num(Judgement); put(","); num(Question); put(","); num(Goal); put(","); num(Quest); put("]");
        key("vars"); put("["); for (int i = 0; i < 3; i++) { if (i) put(","); hex(VARIABLE::Repr[i]); } put("]");
        key("other_tu"); verif_other_tu_tables(out);
    }
    else if (op == "fn") { in >> s; verif_functions(in, s, out); }
    else if (op == "budget0") { auto p = BUDGET::Budget::create(); key("b"); put("["); dbl(p->priority); put(","); dbl(p->durability); put(","); dbl(p->quality); put("]"); }
    else if (op == "budget") { double p, d, q; in >> p >> d >> q; auto x = BUDGET::Budget::create(p, d, q); key("b"); put("["); dbl(x->priority); put(","); dbl(x->durability); put(","); dbl(x->quality); put("]"); }
    else { key("unknown"); hex(op); }
}

int main(int argc, char **argv)
{
    std::string line;
    if (auto name = getenv("VERIF_LOCALE")) std::locale::global(std::locale(name));
    FILE *f = argc > 1 ? fopen(argv[1], "r") : stdin;
    FILE *o = argc > 2 ? fopen(argv[2], "w") : stdout;
    if (!f || !o) return 3;
    static char obuf[1 << 16];
    setvbuf(o, obuf, _IOFBF, sizeof obuf);
#ifdef VERIF_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    char *buf = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&buf, &cap, f)) > 0)
    {
        line.assign(buf, len);
        while (!line.empty() && (line.back() == '\n' || line.back() == '\r')) line.pop_back();
        if (line.empty()) continue;
        std::istringstream in(line);
        in.imbue(std::locale::classic());
        std::string op;
        in >> op;
        out = "{";
        size_t mark = 1;
        try { run(in, op); }
        catch (std::exception &e) { out.resize(mark); key("exc"); hex(e.what()); }
        catch (...) { out.resize(mark); key("exc"); hex("?"); }
        out += "}\n";
        fwrite(out.data(), 1, out.size(), o);
        fflush(o);
    }
    free(buf);
    K.clear(); Z.clear(); T.clear(); S.clear(); P.clear(); E.clear(); M.clear(); W.clear(); X.clear(); I.clear();
    fputs("{\"end\":1}\n", o);
    fflush(o);
    fclose(o);
    return 0;
}
