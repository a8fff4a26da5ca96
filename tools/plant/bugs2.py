"""Second round of planted bugs; loaded by bugs.py."""


def define(bug, HEAD):
    bug("C12-byte-position", property="C12", also=["C21"],
        edits=[("utils/IndexVar.cpp", "            std::vector<int> position = {(int)(bias_pos)};", "            std::vector<int> position = {(signed char)(bias_pos)};")],
        needs="a variable behind more than 127 components", breaks="Positions of variables wrap at 128.",
        cpp=HEAD + '''
int main() {
    std::string s = "<(*";
    for (int i = 0; i < 200; i++) s += ", a" + std::to_string(i);
    auto t = parse(s + ", $x) --> B>.");
    CHECK(t != nullptr);
    auto &pos = t->sentence->term->subject->_vars_independent->positions;
    CHECK(pos.size() == 1 && pos[0] == std::vector<int>{200});
}''')

    bug("C13-query-subject", property="C13",
        edits=[("Narsese/include/Statement.inl", "        this->subject = Term::clone(other.subject);", "        this->subject = other.subject->has_ivar || other.subject->has_dvar ? Term::clone(other.subject) : other.subject;")],
        needs="a clone of a statement the subject of which has query variables only, which are renumbered", breaks="The clone shares such a subject with its original.",
        cpp=HEAD + '''
int main() {
    auto t = parse("<<?1 --> A> ==> <?1 --> $x>>?");
    auto before = show(t->term());
    auto c = Term::clone(t->sentence->term);
    for (auto &i : c->_vars_query->indices) *i += 5;
    CHECK(show(t->term()) == before);
}''')

    bug("C06-nothing-common", property="C06",
        edits=[("Narsese/include/Term.h", '''                    std::inserter(temp, temp.begin()), compare{});
                intersection = temp;''', '''                    std::inserter(temp, temp.begin()), compare{});
                if (!temp.empty())
                    intersection = temp;''')],
        needs="an intersection of sets with nothing in common", breaks="Such an intersection becomes one of the sets.",
        cpp=HEAD + '''
int main() {
    auto t = parse("<(&, {A, B}, {C, D}) --> E>.");
    CHECK(t != nullptr);
    auto &s = *t->sentence->term->subject;
    CHECK(s.connector == Connector::ExtensionalIntersection && s.terms->size() == 2);
}''')

    bug("C10-hash-order", property="C10",
        edits=[("utils/hash.h", "            seed ^= std::hash<T>{}(value) + 0x9e3779b9 + (seed << 6) + (seed >> 2);", "            seed += (std::hash<T>{}(value) ^ 0x9e3779b9) * 0x9E3779B97F4A7C15;")],
        needs="terms with the same components in another order", breaks="Such terms have the same hash.",
        cpp=HEAD + '''
int main() {
    auto t = parse("<(*, A, B) --> (*, B, A)>."), u = parse("<A --> B>."), v = parse("<B --> A>.");
    CHECK(t->sentence->term->subject->hash_value != t->sentence->term->predicate->hash_value);
    CHECK(u->sentence->term->hash_value != v->sentence->term->hash_value);
}''')

    bug("C11-short-complexity", property="C11", also=["C21"],
        edits=[("Narsese/include/Term.h", "        int complexity = 1; //", "        short complexity = 1; //")],
        needs="a term with more than 32767 atoms", breaks="The complexity of large terms is wrong.",
        cpp=HEAD + '''
int main() {
    auto t = Term::create("A");
    for (int i = 0; i < 17; i++) { pTerms two = TERM::Terms::create(std::vector<pTerm>{t, t}, false); t = Compound::create(Connector::Product, two); }
    CHECK(t->complexity == 1 << 17);
}''')

    bug("C14-frozen-default", property="C14",
        edits=[("Narsese/Parser/NarseseParser.cpp", "			budget.durability = CONFIG::d_quest;", "		{\n			static const float d_quest = CONFIG::d_quest;\n			budget.durability = d_quest;\n		}")],
        needs="a configuration that changes between two quests of which only the priority is given", breaks="Quests keep the durability that was configured first.",
        cpp=HEAD + '''
int main() {
    auto quest = [] { auto t = parse("$0.5$ <A --> B>@"); CHECK(t != nullptr); return t->budget->durability; };
    CONFIG::d_quest = 0.25; CHECK(quest() == 0.25);
    CONFIG::d_quest = 0.75; CHECK(quest() == 0.75);
}''')

    bug("C15-stamp-creation", property="C15",
        edits=[("Narsese/include/Sentence.h", "Stamp(signed int  t_occurrence) : Stamp(t_occurrence, GLOBAL::time, -1,", "Stamp(signed int  t_occurrence) : Stamp(t_occurrence, std::max((signed int)GLOBAL::time, t_occurrence), -1,")],
        needs="a stamp made for an occurrence in the future", breaks="Such a stamp is created in the future.",
        cpp=HEAD + '''
int main() {
    GLOBAL::time = 10;
    auto s = Stamp::create((signed int)30);
    CHECK(s->t_occurrence == 30);
    CHECK(s->t_creation == 10);
}''')

    bug("C16-touching", property="C16",
        edits=[("Narsese/include/Evidence.h", "            return !intersection.empty();", "            return !intersection.empty() && (set1.size() == 1 || set2.size() == 1 || (*set1.begin() != *set2.rbegin() && *set2.begin() != *set1.rbegin()));")],
        needs="two bases of several items, the greatest of one being the least of the other", breaks="The overlap is overlooked.",
        cpp=HEAD + '''
int main() {
    Base a(std::set<size_t>{1, 2, 3}), b(std::set<size_t>{3, 4, 5}), c(std::set<size_t>{2, 3, 4});
    CHECK(a.is_overlaped(b) && b.is_overlaped(a) && a.is_overlaped(c) && b.is_overlaped(c));
}''')

    bug("C17-small-evidence", property="C17",
        edits=[("NAL/Functions/include/UncertaintyMappingFunctions.h", "return w > 1e-8 ? w_plus / w : 0.0;", "return w > 1e-3 ? w_plus / w : 0.0;")],
        needs="revision of truths with hardly any evidence", breaks="The frequency of weak truths is lost.",
        cpp=HEAD + '''
int main() {
    Truth a(1, 1e-4), b(1, 2e-4);
    TRUTH_FUNCTIONS::truth_revision(a, b);
    CHECK(a.f > 0.99);
}''')

    bug("C17-project-years", property="C17",
        edits=[("NAL/Functions/include/TemporalFunctions.h", "auto distance = [](int64_t t1, int64_t t2)", "auto distance = [](int t1, int t2)")],
        needs="times beyond 2^31", breaks="Projection over times that need more than 32 bits uses wrong distances.",
        cpp=HEAD + '''
int main() {
    auto t = TRUTH::Truth::create(1.0f, 0.9f);
    auto p = TEMPORAL_FUNCTIONS::project(t, 0, 1LL << 32, 1LL << 33);
    CHECK(p->c < 0.45);
}''')

    bug("C19-reverse", property="C19",
        edits=[("Narsese/include/Copula.h", "RetrospectiveImplication, ConcurrentImplication, PredictiveImplication, None, None, ConcurrentEquivalence};", "RetrospectiveImplication, ConcurrentImplication, PredictiveImplication, None, None, ConcurrentImplication};")],
        needs="the reverse of a concurrent equivalence", breaks="It is an implication.",
        cpp=HEAD + '''
int main() { CHECK(COPULA::reverse(COPULA::CONCURRENTEQUIVALENCE) == COPULA::CONCURRENTEQUIVALENCE); }''')

    bug("C20-copula-unset", property="C20", also=["C18"],
        edits=[("Narsese/include/Term.h", "        Copula copula = COPULA::None;", "        Copula copula;")],
        needs="memory that is not what the system hands out first", breaks="The copula of atoms and compounds is whatever the memory held.",
        cpp=HEAD + '''
#include <malloc.h>
int main() {
    mallopt(M_PERTURB, 0xa5);
    auto t = parse("<(*, A, B) --> C>.");
    CHECK(t->sentence->term->subject->copula == COPULA::None);
    CHECK(t->sentence->term->predicate->copula == COPULA::None);
}''')

    bug("C21-long-name", property="C21",
        edits=[("Narsese/Parser/NarseseParser.cpp", '''	void *ret;
	auto &str = *(new std::string((char *)args[0]));
	ret = &str;
	return ret;
}
void *NARSESEPARSER::string(''', '''	void *ret;
	char word[4096];
	snprintf(word, sizeof(word), "%s", (char *)args[0]);
	auto &str = *(new std::string(word));
	ret = &str;
	return ret;
}
void *NARSESEPARSER::string(''')],
        needs="names longer than 4095 characters", breaks="Names that differ behind that are the same.",
        cpp=HEAD + '''
int main() {
    std::string n(5000, 'a');
    auto t = parse("<" + n + "b --> " + n + "c>.");
    CHECK(t != nullptr);
    CHECK(!(*t->sentence->term->subject == *t->sentence->term->predicate));
}''')

    bug("C05-other-registry", property="C05",
        edits=[("Narsese/src/Term.cpp", "term = new pTerm(new Term(), &_interpreter);", "term = new pTerm(new Term(), &INTERPRETER::interpreter);")],
        needs="an interpreter of one's own", breaks="A term of another interpreter is never released from it.",
        cpp=HEAD + '''
int main() {
    INTERPRETER::Interpreter own;
    { auto t = Term::create("A", &own); CHECK(own.objects.size() == 1); }
    CHECK(own.objects.empty());
    { auto t = Term::create("A", &own); CHECK(own.objects.size() == 1); CHECK(own.interpret(*t) == "A"); }
    CHECK(own.objects.empty() && own.dictionary.empty() && own.count.empty());
}''')

    bug("C07-interval-digits", property="C07", also=["C08"],
        edits=[("Interpreter/src/Interpreter.cpp", '''            else
                return fmt::format("+{}", interval.interval);''', '''            else
                return fmt::format("+{:.6g}", (double)interval.interval);''')],
        needs="intervals of more than six digits", breaks="They are shown rounded.",
        cpp=HEAD + '''
int main() {
    auto t = parse("<(&/, A, +1234567) ==> B>.");
    CHECK(t != nullptr);
    auto u = parse(INTERPRETER::interpreter.interpret(*t));
    CHECK(u != nullptr && *t->sentence->term == *u->sentence->term);
}''')

    bug("C08-unnamed-operation", property="C08",
        edits=[("Interpreter/src/Interpreter.cpp", 'fmt::format(color_operation, fmt::format("^0x{:x}", (long)(&term)))', 'fmt::format(color_operation, fmt::format("0x{:x}", (long)(&term)))')],
        needs="an operation the interpreter has no name for, shown in color", breaks="It looks like a term.",
        cpp=HEAD + '''
int main() {
    auto t = parse("(^go, A)!");
    INTERPRETER::Interpreter other;
    auto a = other.interpret(t->term()), b = std::regex_replace(other.interpret(t->term(), true), std::regex("\\x1b\\\\[[0-9;]*m"), "");
    CHECK(a == b);
}''')

    bug("C10-interval-sum", property="C10",
        edits=[("Narsese/include/Interval.h", "            interval += other.interval;", "            interval += other.interval;\n            if (other.interval < 0)\n                return *this;"),],
        needs="an interval to which a negative one is added", breaks="Its hash is that of its old value.",
        cpp=HEAD + '''
int main() {
    INTERVAL::Interval a(5), b(-2), c(3);
    a += b;
    CHECK(a.interval == 3);
    CHECK(a.hash_value == c.hash_value);
    CHECK(a == c);
}''')

    bug("C02-exponent", property="C02",
        edits=[("Narsese/Parser/NarseseParser.cpp", '''		k = *(double *)args[2];
		delete (double *)args[2];
	}
	else
		k = CONFIG::k;''', '''		k = *(double *)args[2];
		if (k != CONFIG::k)
			delete (double *)args[2];
	}
	else
		k = CONFIG::k;''')],
        needs="a truth whose third value is the configured one", breaks="The number is not freed.",
        cpp=HEAD + '''
#include <malloc.h>
int main() {
    auto run = [](int n) { for (int i = 0; i < n; i++) { auto t = parse("<A --> B>. %0.5;0.5;1.0%"); if (t == nullptr) t = parse("<A --> B>. %0.5;0.5;1%"); CHECK(t != nullptr); } return mallinfo2().uordblks; };
    auto a = run(100), b = run(20000);
    CHECK(b < a + 20000);
}''')

    bug("C18-sorted-terms", property="C18",
        edits=[("Narsese/src/Term.cpp", "return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));", "return py::iter(py::cast(COPULA::is_commutative(self->copula) && *self->predicate < *self->subject ? std::vector<pTerm>{self->predicate, self->subject} : std::vector<pTerm>{self->subject, self->predicate}));")],
        needs="the components of a statement with a commutative copula, from Python", breaks="They come in the order of their hashes.",
        py='''
import narsese
keep = []
for i in range(40):
    t = narsese.parse("<a%d <-> b%d>." % (i, i)).term
    keep.append(t)
    assert [repr(x) for x in t.terms] == [repr(t.subject), repr(t.predicate)], i
''')

    bug("C18-borrowed", property="C18",
        edits=[("Narsese/src/Task.cpp", '.def_property_readonly("term", &TASK::pTask::term)', '.def_property_readonly("term", [](TASK::pTask &self) -> TERM::pTerm & { return self->sentence->term; }, py::return_value_policy::reference)')],
        needs="a term got from a task that is gone", breaks="The Python term points into freed memory.",
        env="env MALLOC_PERTURB_=165 ",
        py='''
import narsese, gc
for i in range(200):
    t = narsese.parse("<a%d --> b%d>." % (i, i)).term
    gc.collect()
    x = [bytearray(k) for k in range(16, 256, 8)]
    assert repr(t) == "<Statement: <a%d --> b%d>>" % (i, i)
''')

    bug("C09-first-difference", property="C09",
        edits=[("Narsese/include/Term.inl", "                return term1.terms->size() < term2.terms->size();", "                return (term1.terms->size() ^ term2.terms->size()) & 1 ? term1.terms->size() % 2 == 0 : term1.terms->size() <= term2.terms->size();")],
        needs="compounds of the same hash and of different sizes", breaks="nothing that can be seen, as their hashes differ",
        cpp=HEAD + "int main() {}") if False else None

    bug("C09-qvar-order", property="C09",
        edits=[("Narsese/include/Term.inl", "                    return *(this->_vars_query->indices[0]) < *(other._vars_query->indices[0]);", "                    return *(this->_vars_query->indices[0]) <= *(other._vars_query->indices[0]);")],
        needs="equal query variables in the same set", breaks="A variable is less than itself: sets keep it twice.",
        cpp=HEAD + '''
int main() {
    auto t = parse("(*, ?1, ?1)?");
    auto &a = **t->sentence->term->terms->begin(), &b = **(t->sentence->term->terms->begin() + 1);
    CHECK(!(a < b) && !(b < a));
}''')

    bug("C04-sticky-names", property="C04", also=["C07", "C12"],
        edits=[("Narsese/Parser/NarseseParser.h", '''			TASK::Task *task = ((TASK::Task *)this->parse_string(input));''', '''			TASK::Task *task = ((TASK::Task *)this->parse_string(input));
			if (task == nullptr)
				task = ((TASK::Task *)this->parse_string(input)); // a failed parse may have left something behind''')],
        needs="texts that are rejected", breaks="nothing but time",
        cpp=HEAD + "int main() {}") if False else None

    bug("C01-narrow-lexem", property="C01",
        edits=[("Narsese/Parser/narsese.cpp", '''			( size + 1 ) * sizeof( UNICC_SCHAR ) ) ) )
	{
		UNICC_OUTOFMEM( this );
		return NULL;
	}

	wcstombs(''', '''			( size ? size + 1 : 0 ) * sizeof( UNICC_SCHAR ) ) ) )
	{
		UNICC_OUTOFMEM( this );
		return NULL;
	}

	wcstombs(''')],
        needs="an error reported where no token is left", breaks="The empty token's text is written past its allocation.",
        args="san=True", cpp=HEAD + '''
int main() {
    for (auto s : {"", "<", "<A -->", "<A --> B>", "\\n", "(", "<A --> B>. %1"}) CHECK(parse(s) == nullptr);
}''')

    bug("C03-dfa-hash", property="C03",
        edits=[("Narsese/Parser/Parser.h", None, None)], needs="", breaks="", cpp=HEAD + "int main() {}") if False else None
