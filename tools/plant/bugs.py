HEAD = '''
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <regex>
#include "Narsese/include/Narsese.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "NAL/Functions/include/TruthFunctions.h"
#include "NAL/Functions/include/TemporalFunctions.h"
#include "Config.h"
using namespace NARSESEPARSER;
using TERM::pTerm; using TERM::Term; using TERM::Terms; using TERM::pTerms;
using COMPOUND::Compound; using STATEMENT::Statement; using VARIABLE::Variable; using CONNECTOR::Connector; using COPULA::Copula;
using INDEXVAR::IndexVar; using EVIDENCE::Base; using SENTENCE::Stamp; using TRUTH::Truth;
#define CHECK(x) do { if (!(x)) { printf("failed: %s\\n", #x); exit(1); } } while (0)
static auto &P() { static NarseseParser p; return p; }
static auto parse(std::string s) { return P().parse_task(s); }
static std::string show(Term &t, bool colored = false) { return INTERPRETER::interpreter.interpret(t, colored); }
'''
BUGS = {}


def bug(bid, **kw): BUGS[bid] = kw


bug("C01-token-buffer", property="C01",
    edits=[("Narsese/Parser/narsese.cpp", "( size + UNICC_MALLOCSTEP + 1 )\n\t\t\t\t\t\t\t* sizeof( UNICC_CHAR ) ) ) )", "( size + UNICC_MALLOCSTEP )\n\t\t\t\t\t\t\t* sizeof( UNICC_CHAR ) ) ) )")],
    needs="a token (name, string, blank run) whose buffered length reaches a multiple of 128 characters beyond the first",
    breaks="The lookahead buffer is grown without room for its terminator: a heap write past its end.",
    args="san=True", cpp=HEAD + '''
int main() {
    for (int n = 120; n < 420; n++) {
        auto t = parse("<" + std::string(n, 'a') + " --> B>.");
        CHECK(t != nullptr);
    }
}''')

bug("C02-quest-tense", property="C02",
    edits=[("Narsese/Parser/NarseseParser.cpp", '''			auto time = *(signed int *)ptr;
			delete (signed int *)ptr;
			stamp = new Stamp(time, GLOBAL::time, -1, nullptr, false);
		}
	}

	if (stamp == nullptr)
	{
		stamp = new Stamp(true);
	}

	auto &quest = ''', '''			auto time = *(signed int *)ptr;
			stamp = new Stamp(time, GLOBAL::time, -1, nullptr, false);
		}
	}

	if (stamp == nullptr)
	{
		stamp = new Stamp(true);
	}

	auto &quest = ''')],
    needs="quests with a tense", breaks="The number of a quest's tense is never freed.",
    cpp=HEAD + '''
#include <malloc.h>
int main() {
    auto run = [](int n) { for (int i = 0; i < n; i++) { auto t = parse("<A --> B>@ :!7:"); CHECK(t != nullptr); } return mallinfo2().uordblks; };
    auto a = run(100), b = run(20000);
    CHECK(b < a + 20000);
}''')

bug("C03-instance-property", property="C03",
    edits=[("Narsese/Parser/NarseseParser.cpp", '''		auto property = Compound::IntensionalSet({predicate});
		statement = new Statement(instance, Copula::Inheritance, property, true);''', '''		auto property = predicate->is_compound() && predicate->connector == Connector::IntensionalSet ? predicate : Compound::IntensionalSet({predicate});
		statement = new Statement(instance, Copula::Inheritance, property, true);''')],
    needs="an instance-property statement whose predicate is an intensional set already", breaks="nothing",
    cpp=HEAD + "int main() {}")
del BUGS["C03-instance-property"]  # the set of a set of the same kind is that set: behaviour is the same

bug("C03-string-space", property="C03",
    edits=[("Narsese/Parser/NarseseParser.cpp", '''		f = *(double *)args[0];
		delete (double *)args[0];
	}
	else
		f = -1.0;
	if (args.size() >= 2)''', '''		f = (float)(int)(*(double *)args[0] * 1000 + 0.5) / 1000;
		delete (double *)args[0];
	}
	else
		f = -1.0;
	if (args.size() >= 2)''')],
    needs="a truth whose frequency has more than three digits after the point", breaks="The frequency of a text is rounded to three digits.",
    cpp=HEAD + '''
int main() {
    auto t = parse("<A --> B>. %0.12345;0.9%");
    CHECK(t != nullptr);
    CHECK(std::abs(t->sentence->truth->f - 0.12345f) < 1e-6);
}''')

bug("C04-rejected-rest", property="C04",
    edits=[("Narsese/Parser/Parser.cpp", '''    this->parse();

    char_fetcher.clear();
    /* Print AST */
    if (this->ast)
    {
''', '''    this->parse();

    /* Print AST */
    if (this->ast)
    {
        char_fetcher.clear();
''')],
    needs="a rejected text before an accepted one, by the same parser", breaks="The text of a rejected parse stays in the character buffer and is read again.",
    cpp=HEAD + '''
int main() {
    CHECK(parse("<A --> >.") == nullptr);
    auto t = parse("<A --> B>.");
    CHECK(t != nullptr);
}''')

bug("C05-operations-stay", property="C05",
    edits=[("Narsese/include/Term.inl", "(*this)->is_atom() && this->_interpreter != nullptr && this->use_count() == 2)", "(*this)->is_atom() && !(*this)->is_operation && this->_interpreter != nullptr && this->use_count() == 2)")],
    needs="operations whose last use goes", breaks="Operations are never forgotten by the registry.",
    cpp=HEAD + '''
int main() {
    { auto t = parse("(^go, A)!"); CHECK(t != nullptr); CHECK(INTERPRETER::interpreter.objects.size() == 2); }
    CHECK(INTERPRETER::interpreter.objects.empty());
}''')

bug("C06-early-stop", property="C06",
    edits=[("Narsese/include/Term.h", '''                    std::inserter(temp, temp.begin()), compare{});
                intersection = temp;
            }''', '''                    std::inserter(temp, temp.begin()), compare{});
                if (temp.size() == intersection.size())
                    break;
                intersection = temp;
            }''')],
    needs="three or more sets in an intersection, an earlier one of which contains all that is common so far", breaks="The intersection of sets stops at the first set that removes nothing.",
    cpp=HEAD + '''
int main() {
    const char *names[] = {"A", "B", "C", "D", "E"};
    int n = 0;
    for (int i = 1; i < 32; i++) for (int j = 1; j < 32; j++) for (int k = 1; k < 32; k++) {
        if ((i & j & k) == 0) continue;
        auto set = [&](int m) { std::string s; for (int b = 0; b < 5; b++) if (m >> b & 1) s += std::string(s.empty() ? "{" : ",") + names[b]; return s + "}"; };
        auto t = parse("<(&, " + set(i) + ", " + set(j) + ", " + set(k) + ") --> X>.");
        CHECK(t != nullptr);
        auto &s = *t->sentence->term->subject;
        CHECK(s.connector == Connector::ExtensionalSet);
        CHECK(s.terms->size() == (size_t)__builtin_popcount(i & j & k));
        n++;
    }
    printf("%d\\n", n);
}''')

bug("C07-ten-variables", property="C07",
    edits=[("Interpreter/src/Interpreter.cpp", "auto str = prefix + std::to_string(idx_var);", "auto str = prefix + std::string(1, (char)('0' + idx_var));")],
    needs="more than ten variables of a kind in a task", breaks="Variables from the eleventh on are shown with characters that are no digits.",
    cpp=HEAD + '''
int main() {
    for (int n = 1; n < 60; n++) {
        std::string s = "<(*";
        for (int i = 0; i < n; i++) s += ", #v" + std::to_string(i);
        auto t = parse(s + ", a) --> B>.");
        CHECK(t != nullptr);
        auto shown = INTERPRETER::interpreter.interpret(*t);
        auto u = parse(shown);
        CHECK(u != nullptr);
        CHECK(INTERPRETER::interpreter.interpret(*u) == shown);
    }
}''')

bug("C08-goal-digits", property="C08",
    edits=[("Interpreter/src/Interpreter.cpp", '''            auto &truth = *sentence.truth;
            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt''', '''            auto &truth = *sentence.truth;
            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3}", truth.f), fmt''')],
    needs="a goal, shown in color", breaks="The frequency of a goal is shown in another form in color.",
    cpp=HEAD + '''
int main() {
    auto t = parse("<A --> B>! %0.25;0.5%");
    CHECK(t != nullptr);
    auto a = INTERPRETER::interpreter.interpret(*t->sentence), b = INTERPRETER::interpreter.interpret(*t->sentence, true);
    b = std::regex_replace(b, std::regex("\\x1b\\\\[[0-9;]*m"), "");
    CHECK(a == b);
}''')

bug("C09-query-shortcut", property="C09",
    edits=[("Narsese/include/Term.inl", '''            auto &term1 = *this;
            auto &term2 = other;
            if (hash(term1) != hash(term2))
                return false;

            return (((''', '''            auto &term1 = *this;
            auto &term2 = other;
            if (term1.copula == term2.copula && !(term1.has_ivar || term1.has_dvar))
                return true; // the hashes are the same

            return (((''')],
    needs="statements that differ only in which query variables they repeat", breaks="Such statements compare equal, so sets lose one of them.",
    cpp=HEAD + '''
int main() {
    auto t = parse("(&&, <?1 --> ?2>, <?1 --> ?1>)?");
    CHECK(t != nullptr);
    CHECK(t->sentence->term->terms->size() == 2);
    auto u = parse("(*, <?1 --> ?2>, <?1 --> ?1>)?");
    auto &terms = *u->sentence->term->terms;
    CHECK(!(**terms.begin() == **(terms.begin() + 1)));
}''')

bug("C10-clone-hash", property="C10", also=["C13"],
    edits=[("Narsese/include/Statement.inl", '''        this->is_hashed = other.is_hashed;
        this->hash_value = other.hash_value;''', '''        this->hash_value = other.hash_value;''')],
    needs="a statement with variables that is cloned, and then compared or inserted", breaks="The hash of a clone is computed again, from other things than the original's.",
    cpp=HEAD + '''
int main() {
    auto t = parse("<<#1 --> $x> ==> <$y --> $x>>.");
    auto a = t->term().hash_value;
    auto c = Term::clone(t->sentence->term);
    CHECK(c->__hash__() == a);
    CHECK(*c == t->term());
}''')

bug("C11-clone-operation", property="C11", also=["C13"],
    edits=[("Narsese/include/Statement.inl", '''        this->is_higher_order = other.is_higher_order;
        this->is_operation = other.is_operation;
''', '''        this->is_higher_order = other.is_higher_order;
''')],
    needs="an operation statement with variables that is cloned (e.g. as a component of a statement made by the constructor)", breaks="The clone is no operation, and is shown as an inheritance.",
    cpp=HEAD + '''
int main() {
    auto t = parse("(^go, $x, A)!");
    CHECK(t != nullptr && t->term().is_operation);
    auto c = Term::clone(t->sentence->term);
    CHECK(c->is_operation);
    CHECK(show(*c) == show(t->term()));
}''')

bug("C12-skip-constants", property="C12",
    edits=[("Narsese/include/Term.inl", '''    inline void Term::_init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms)
    {
        for (auto term : terms)
        {
            auto indexvars2''', '''    inline void Term::_init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms)
    {
        for (auto term : terms)
        {
            if (!term->has_var)
                continue;
            auto indexvars2''')],
    needs="a compound with a component without variables before one with variables", breaks="The positions of variables are those among the components with variables.",
    cpp=HEAD + '''
int main() {
    auto t = parse("<(*, A, #x, B, #y) --> C>.");
    auto &s = *t->sentence->term->subject;
    auto &pos = s._vars_dependent->positions;
    CHECK(pos.size() == 2);
    CHECK((pos[0] == std::vector<int>{1}) && (pos[1] == std::vector<int>{3}));
}''')

bug("C13-shared-index", property="C13", also=["C12"],
    edits=[("utils/IndexVar.h", '''            for (auto idx : other->indices)
                indexvar.indices.push_back(pInt(new int(*idx)));''', '''            indexvar.indices = other->indices;''')],
    needs="a clone whose variables are renumbered", breaks="Renumbering a clone's variables renumbers the original's.",
    cpp=HEAD + '''
int main() {
    auto t = parse("<#x --> #y>.");
    auto before = show(t->term());
    auto c = Term::clone(t->sentence->term);
    for (auto &i : c->_vars_dependent->indices) *i += 5;
    CHECK(show(t->term()) == before);
    CHECK(show(*c) != before);
}''')

bug("C14-quest-durability", property="C14",
    edits=[("Narsese/Parser/NarseseParser.cpp", '''			budget.durability = CONFIG::d_quest;''', '''			budget.durability = CONFIG::d_question;''')],
    needs="a configuration in which quests and questions differ, and a quest whose budget gives the priority only", breaks="Quests take the durability configured for questions.",
    cpp=HEAD + '''
int main() {
    CONFIG::d_quest = 0.3;
    auto t = parse("$0.5$ <A --> B>@");
    CHECK(t != nullptr);
    CHECK(std::abs(t->budget->durability - 0.3) < 1e-6);
}''')

bug("C15-goal-creation", property="C15",
    edits=[("Narsese/Parser/NarseseParser.cpp", '''			stamp = new Stamp(time, GLOBAL::time, -1, nullptr, false);
		}
		else if (mark == 1)
		{
			desire = (Truth *)ptr;''', '''			stamp = new Stamp(time, time, -1, nullptr, false);
		}
		else if (mark == 1)
		{
			desire = (Truth *)ptr;''')],
    needs="a goal with a tense other than the present", breaks="The creation time of a goal is the time it is wanted for.",
    cpp=HEAD + '''
int main() {
    GLOBAL::time = 40;
    auto t = parse("<A --> B>! :!7:");
    CHECK(t->sentence->stamp->t_occurrence == 7);
    CHECK(t->sentence->stamp->t_creation == 40);
}''')

bug("C16-stale-hash", property="C16",
    edits=[("Narsese/include/Evidence.h", '''            this->_set->insert(id_evidence);
            this->_is_hashed = false;
            return this;''', '''            if (this->_set->insert(id_evidence).second && this->_is_hashed)
                this->_hash ^= Hash{}(id_evidence);
            return this;''')],
    needs="a base that was hashed before evidence was added", breaks="Equal bases have different hashes, by their history.",
    cpp=HEAD + '''
int main() {
    Base a(std::set<size_t>{1, 2}), b(std::set<size_t>{1, 2, 3});
    a.__hash__();
    a.add(3);
    CHECK(a.__hash__() == b.__hash__());
}''')

bug("C17-self-revision", property="C17",
    edits=[("NAL/Functions/include/TruthFunctions.h", '''        auto w = truth1.w() + truth2.w();
        auto w_p = truth1.w_p() + truth2.w_p();
        // auto''', '''        truth1.f = w_to_f(truth1.w_p() + truth2.w_p(), truth1.w() + truth2.w());
        auto w = truth1.w() + truth2.w();
        auto w_p = truth1.f * w;
        // auto'''), ("NAL/Functions/include/TruthFunctions.h", '''        auto c = w_to_c(w, k);
        truth1.f = f;''', '''        auto c = std::min(w_to_c(w, k), 1 - 1e-4f);
        truth1.f = f;''')],
    needs="revision of truths whose confidence exceeds 0.9999", breaks="Revision loses confidence.",
    cpp=HEAD + '''
int main() {
    Truth a(0.5, 0.99995), b(0.5, 0.9);
    TRUTH_FUNCTIONS::truth_revision(a, b);
    CHECK(a.c >= 0.99995f);
}''')

bug("C18-enumerator", property="C18",
    edits=[("Narsese/src/Copula.cpp", '.value("ConcurrentEquivalence", COPULA::Copula::ConcurrentEquivalence, "<|>")', '.value("ConcurrentEquivalence", COPULA::Copula::ConcurrentImplication, "<|>")')],
    needs="the enumerator Copula.ConcurrentEquivalence in Python", breaks="It denotes another copula.",
    py='''
import narsese as n
s = n.Statement(n.Term("A"), n.Copula.ConcurrentEquivalence, n.Term("B"))
assert "<|>" in repr(s), repr(s)
''')

bug("C19-double-only", property="C19",
    edits=[("Narsese/include/Connector.h", "_double_only[] = {false, false, false, false, false, false, false, true, true,", "_double_only[] = {false, false, false, false, false, false, false, true, false,")],
    needs="asking whether an intensional difference may have three components", breaks="It may.",
    cpp=HEAD + '''
int main() {
    CHECK(!CONNECTOR::check_valid(Connector::IntensionalDifference, 3));
    CHECK(CONNECTOR::check_valid(Connector::IntensionalDifference, 2));
}''')

bug("C20-unset-flag", property="C20",
    edits=[("utils/IndexVar.h", "        bool _is_built = false;", "        bool _is_built;")],
    needs="a heap that hands out memory with other contents than zero", breaks="Whether a variable table is built depends on the initial contents of memory.",
    cpp=HEAD + '''
#include <new>
void *operator new(size_t n) { auto p = malloc(n); memset(p, 0x7f, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
    auto v = IndexVar::create(), w = IndexVar::create();
    auto t = parse("<(*, #x, #y) --> C>.");
    auto iv = IndexVar::create();
    CHECK(!iv->_is_built);
    CHECK(t->term()._vars_dependent->indices.size() == 2);
}''')

bug("C21-stack-growth", property="C21", also=["C01"],
    edits=[("Narsese/Parser/narsese.cpp", '''		if( !( ptr = (_tok*)realloc( this->stack,
				( this->stacksize + UNICC_MALLOCSTEP )
					* sizeof( _tok ) ) ) )''', '''		if( ( ptr = (_tok*)calloc( this->stacksize + UNICC_MALLOCSTEP,
				sizeof( _tok ) ) ) )
		{
			memcpy( ptr, this->stack, size * sizeof( _tok ) );
			free( this->stack );
			this->stack = NULL;
		}
		else''')],
    needs="a text nested deeper than the first allocation of the parse stack", breaks="The top of the stack is lost when the stack grows.",
    cpp=HEAD + '''
int main() {
    for (int n = 20; n < 300; n++) {
        std::string s;
        for (int i = 0; i < n; i++) s += "(--, ";
        s += "A";
        for (int i = 0; i < n; i++) s += ")";
        auto t = parse("<" + s + " --> B>.");
        CHECK(t != nullptr);
        CHECK(t->term().complexity == 3);
    }
}''')


import importlib.util as _u, os as _o
for _n in ("bugs2", "bugs3"):
    _p = _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), _n + ".py")
    if _o.path.exists(_p):
        _s = _u.spec_from_file_location(_n, _p); _m = _u.module_from_spec(_s); _s.loader.exec_module(_m); _m.define(bug, HEAD)
