"""Third round of planted bugs; loaded by bugs.py."""


def define(bug, HEAD):
    ERR = HEAD + '''
#include <unistd.h>
#include <fcntl.h>
static std::string errors(std::string s) {
    fflush(stderr); fflush(stdout);
    char name[] = "/tmp/demo-XXXXXX";
    int f = mkstemp(name), a = dup(1), b = dup(2);
    unlink(name); dup2(f, 1); dup2(f, 2);
    auto t = parse(s);
    fflush(stderr); fflush(stdout); std::cout.flush(); std::cerr.flush();
    dup2(a, 1); dup2(b, 2); close(a); close(b);
    std::string out; char buf[4096]; lseek(f, 0, SEEK_SET);
    for (ssize_t n; (n = read(f, buf, sizeof buf)) > 0;) out.append(buf, n);
    close(f);
    return out;
}
'''
    bug("C22-long-token", property="C22",
        edits=[("Narsese/Parser/narsese.cpp", "			for( int i = 0; i < this->len; i++ )\n			{\n				if( (char)this->buf[i] == '\\n' )", "			for( signed char i = 0; i < (signed char)this->len; i++ )\n			{\n				if( (char)this->buf[i] == '\\n' )")],
        needs="an error behind a name of more than 127 characters", breaks="The column of the error is too small.",
        cpp=ERR + '''
int main() {
    auto column = [](std::string text) {  // the first number behind "col" or the last number of the report
        auto e = errors(text);
        long n = -1;
        for (size_t i = 0; i < e.size(); i++)
            if (isdigit((unsigned char)e[i]) && (i == 0 || !isalnum((unsigned char)e[i - 1]))) n = std::max(n, atol(e.c_str() + i));
        return n;
    };
    auto a = column("<" + std::string(200, 'a') + " --> )."), b = column("<aa --> ).");
    CHECK(b > 0 && a == b + 198);
}''')

    bug("C22-second-report", property="C22",
        edits=[("Narsese/Parser/narsese.cpp", "	this->line = this->column = 1;\n	this->ast = NULL;", "	if( !this->error_count )\n		this->line = this->column = 1;\n	this->ast = NULL;")],
        needs="two rejected texts in a row on one parser", breaks="The place of the second error goes on counting from the first.",
        cpp=ERR + '''
int main() {
    auto a = errors("<A --> )."), b = errors("<A --> ).");
    CHECK(!a.empty() && a == b);
}''')

    bug("C05-third-put", property="C05",
        edits=[("Interpreter/include/Interpreter.hpp", "            count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);", "            count[key] = (check_count(key) == 0) ? 1 : 2;")],
        needs="an entry put three times and erased twice", breaks="The entry is gone while it is still in use.",
        cpp=HEAD + '''
int main() {
    INTERPRETER::Interpreter ip;
    auto p = new pTerm(new Term());
    for (int i = 0; i < 3; i++) ip.put(7, "x", p);
    ip.erase(7);
    ip.erase(7);
    std::string x = "x";
    CHECK(ip.check(7) && ip.check_by_name(x));
    ip.erase(7);
    CHECK(!ip.check(7) && !ip.check_by_name(x));
}''')

    bug("C12-rebuild-one", property="C12",
        edits=[("utils/IndexVar.cpp", "    if (successors.size() > 0)\n    {\n        indices.clear();", "    if (successors.size() > 1)\n    {\n        indices.clear();")],
        needs="variables under a compound of one component whose tables are built again", breaks="The variables are listed twice.",
        cpp=HEAD + '''
int main() {
    auto t = parse("<(--, <$x --> A>) ==> B>.");
    auto neg = t->sentence->term->subject;
    neg->_vars_independent->rebuild();
    CHECK(neg->_vars_independent->indices.size() == 1 && neg->_vars_independent->positions.size() == 1);
}''')

    bug("C12-long-variables", property="C12", also=["C21", "C03"],
        edits=[("Narsese/Parser/NarseseParser.cpp", '''	auto &names_map = self->names_dvar;
	auto str = name.c_str();
	if (names_map.count(str) == 0)
		names_map[str] = names_map.size();
	auto idx = names_map[name.c_str()];''', '''	auto &names_map = self->names_dvar;
	auto str = name.substr(0, 32);
	if (names_map.count(str) == 0)
		names_map[str] = names_map.size();
	auto idx = names_map[str];''')],
        needs="two dependent variables with names that agree in 31 characters", breaks="They become one variable.",
        cpp=HEAD + '''
int main() {
    std::string n(40, 'v');
    auto t = parse("(&&, <#" + n + "1 --> A>, <#" + n + "2 --> B>).");
    auto &v = *t->sentence->term->_vars_dependent;
    CHECK(v.indices.size() == 2 && *v.indices[0] != *v.indices[1]);
}''')

    bug("C06-nested-variables", property="C06", also=["C03"],
        edits=[("Narsese/src/Compound.cpp", '''            if (term->is_compound() && term->connector == connector_parent)
            {
                auto &cmpd''', '''            if (term->is_compound() && term->connector == connector_parent && !(term->has_ivar && term->has_dvar))
            {
                auto &cmpd''')],
        needs="a sequence in a sequence that has both independent and dependent variables", breaks="The inner sequence is not unfolded.",
        cpp=HEAD + '''
int main() {
    auto t = parse("(&/, A, (&/, <$x --> B>, <#y --> C>), D).");
    CHECK(t->sentence->term->terms->size() == 4);
}''')

    bug("C14-zero-priority", property="C14",
        edits=[("Narsese/Parser/NarseseParser.cpp", '''	else if (sentence.is_goal())
	{
		if (budget.priority < -0.5)''', '''	else if (sentence.is_goal())
	{
		if (budget.priority <= 0)''')],
        needs="a goal with the priority 0", breaks="It gets the default priority.",
        cpp=HEAD + '''
int main() {
    auto t = parse("$0.0;0.5;0.5$ <A --> B>!");
    CHECK(t != nullptr && t->budget->priority == 0);
}''')

    bug("C18-truth-k", property="C18",
        edits=[("Narsese/src/Truth.cpp", ".def(py::init([](double f, double c, double k){return Truth::create(f, c, k);})", ".def(py::init([](double f, double c, float k){return k == 1 ? Truth::create(f, c) : Truth::create(f, c, (int)k);})")],
        needs="a truth made in Python with a fractional k", breaks="k is cut to an integer.",
        py='''
import narsese
t = narsese.Truth(0.5, 0.5, 2.5)
assert abs(t.k - 2.5) < 1e-6, t.k
assert narsese.Truth(0.5, 0.5, 3).k == 3 and narsese.Truth(0.5, 0.5).k == 1
''')

    bug("C19-image-name", property="C19", also=["C18"],
        edits=[("Narsese/src/Connector.cpp", '.value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\\\")', '.value("IntensionalImage", CONNECTOR::Connector::ExtensionalImage, "\\\\")')],
        needs="the connector IntensionalImage from Python", breaks="It is the extensional image there.",
        py='''
import narsese
A, B = narsese.Term("A"), narsese.Term("B")
assert "(\\\\, A, B)" in repr(narsese.Compound(narsese.Connector.IntensionalImage, A, B)), repr(narsese.Compound(narsese.Connector.IntensionalImage, A, B))
''')

    bug("C21-normal-narrow", property="C21", also=["C12"],
        edits=[("utils/IndexVar.cpp", "    std::map<int, int> mapping;", "    std::map<int, unsigned char> mapping;")],
        needs="more than 256 different variables in one term", breaks="Different variables have the same normalised number.",
        cpp=HEAD + '''
#include <set>
int main() {
    std::string s = "<(*";
    for (int i = 0; i < 300; i++) s += ", $v" + std::to_string(i);
    auto t = parse(s + ") --> B>.");
    CHECK(t != nullptr);
    auto n = *t->sentence->term->_vars_independent->normalize();
    CHECK(std::set<int>(n.begin(), n.end()).size() == 300);
}''')

    bug("C16-add-hash", property="C16",
        edits=[("Narsese/include/Evidence.h", "            this->_set->insert(id_evidence);\n            this->_is_hashed = false;", "            if (this->_set->size() < CONFIG::maximum_evidential_base_length)\n                this->_set->insert(id_evidence), this->_is_hashed = this->_is_hashed && this->_set->size() > 64;")],
        needs="evidence added to a hashed base of more than 64", breaks="The hash stays that of the former base.",
        cpp=HEAD + '''
int main() {
    Base a(std::set<size_t>{}), b(std::set<size_t>{});
    for (size_t i = 0; i < 80; i++) a.add(i), b.add(i);
    auto h = a.__hash__();
    a.add(1000); b.add(1000);
    CHECK(a.__hash__() == b.__hash__() && a.__hash__() != h);
}''')

    bug("C07-present", property="C07", also=["C15"],
        edits=[("Narsese/include/Tense.h", 'const string Repr[] = {string(":\\\\:"), string(":|:"), string(":/:"), string(":-:")};', 'const string Repr[] = {string(":\\\\:"), string(":|:"), string(":\\\\:"), string(":-:")};')],
        needs="a sentence in the future tense that is printed and read again", breaks="It is printed in the past tense.",
        cpp=HEAD + '''
int main() {
    auto t = parse("<A --> B>. :/:");
    auto s = INTERPRETER::interpreter.interpret(*t);
    auto u = parse(s);
    CHECK(u != nullptr && u->sentence->stamp->tense() == t->sentence->stamp->tense());
}''')

    bug("C08-interval-plus", property="C08",
        edits=[("Interpreter/src/Interpreter.cpp", 'return fmt::format(color_number, fmt::format("+{}", interval.interval));', 'return fmt::format(color_number, "{:+}", interval.interval);')],
        needs="a negative interval in color", breaks="The colored form has no plus sign.",
        cpp=HEAD + '''
int main() {
    auto t = parse("<(&/, A, +-5) ==> B>.");
    CHECK(t != nullptr);
    auto c = std::regex_replace(show(t->term(), true), std::regex("\\x1b\\\\[[0-9;]*m"), "");
    CHECK(c == show(t->term()));
}''')

    bug("C13-clone-name", property="C13", also=["C12"],
        edits=[("Narsese/include/Variable.inl", "    inline Variable::Variable(const Variable &other) : name(other.name), prefix(other.prefix), TERM::Term(other)", "    inline Variable::Variable(const Variable &other) : name(other.name), prefix(other.is_qvar ? VarPrefix::Dependent : other.prefix), TERM::Term(other)")],
        needs="a cloned query variable that is printed or hashed again", breaks="The clone is printed as a dependent variable.",
        cpp=HEAD + '''
int main() {
    auto t = parse("<?1 --> A>?");
    auto c = Term::clone(t->sentence->term);
    CHECK(show(*c) == show(t->term()));
}''')

    bug("C11-operation-sub", property="C11", also=["C03", "C08"],
        edits=[("Narsese/include/Statement.inl", "this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)", "this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT && !(*this->subject->terms->begin())->is_interval)")],
        needs="an operation the first argument of which is an interval", breaks="It is not taken for an operation.",
        cpp=HEAD + '''
int main() {
    auto t = parse("(^go, +5, B).");
    CHECK(t != nullptr && t->sentence->term->is_operation);
}''')

    bug("C10-interval-mod", property="C10", also=["C09", "C03"],
        edits=[("Narsese/include/Interval.h", """            this->Term::is_interval = true;
            this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});""", """            this->Term::is_interval = true;
            this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval % 1000003});""")],
        needs="intervals that differ by 1000003", breaks="They have the same hash, and so are equal.",
        cpp=HEAD + """
int main() {
    auto t = parse("<(&/, A, +7) ==> (&/, A, +1000010)>.");
    auto &a = **(t->sentence->term->subject->terms->begin() + 1), &b = **(t->sentence->term->predicate->terms->begin() + 1);
    CHECK(!(a == b));
}""")

    bug("C18-released-lock", property="C18",
        edits=[("Narsese/Parser/NarseseParser.cpp", """				auto task = NARSESEPARSER::parser->parse_task(line);
				if (task == nullptr)
					throw std::runtime""", """				TASK::pTask task;
				{
					py::gil_scoped_release free;
					task = NARSESEPARSER::parser->parse_task(line);
				}
				if (task == nullptr)
					throw std::runtime""")],
        needs="two Python threads that parse at the same time", breaks="They share one parser without a lock: wrong terms or a crash.",
        py='''
import os, subprocess
if len(sys.argv) < 2:
    sys.exit(any(subprocess.run([sys.executable, __file__, "x"]).returncode for _ in range(3)))
import narsese, threading
texts = ["<(&/, A%d, <$x --> {B}>) ==> (^go, #y, +5)>. :|: %%0.5;0.5%%" % i for i in range(50)]
want = [repr(narsese.parse(t)) for t in texts]
bad = []
def work(k):
    for i in range(4000):
        j = (i * 7 + k * 11) % 50
        try: s = repr(narsese.parse(texts[j]))
        except Exception as x: s = str(x)
        if s != want[j]: bad.append(s)
ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
for t in ts: t.start()
for t in ts: t.join()
sys.exit(bool(bad))
''')

    bug("C15-id-width", property="C15",
        edits=[("Global.h", "    inline unsigned long get_input_id()", "    inline unsigned short get_input_id()")],
        needs="more than 65536 sentences in one process", breaks="The evidence of a new sentence is that of an old one.",
        cpp=HEAD + '''
int main() {
    std::set<size_t> seen;
    for (int i = 0; i < 66000; i++) {
        auto t = parse("A.");
        for (auto e : *t->sentence->stamp->evidential_base->_set) CHECK(seen.insert(e).second);
    }
}''')

    bug("C05-count-byte", property="C05",
        edits=[("Interpreter/include/Interpreter.hpp", "        map<size_t, int> count;", "        map<size_t, signed char> count;")],
        needs="an entry put more than 127 times", breaks="The count overflows and the entry is never released.",
        cpp=HEAD + '''
int main() {
    INTERPRETER::Interpreter ip;
    auto p = new pTerm(new Term());
    for (int i = 0; i < 200; i++) ip.put(7, "x", p);
    for (int i = 0; i < 199; i++) CHECK(ip.erase(7));
    CHECK(ip.check(7));
    CHECK(ip.erase(7));
    CHECK(!ip.check(7));
}''')

    bug("C02-known-name", property="C02",
        edits=[("Narsese/Parser/NarseseParser.cpp", """		term = new pTerm(new Term(), &INTERPRETER::interpreter);
		INTERPRETER::interpreter.put((*term)->hash_value, str, (void *)term);
	}

	delete &str;
""", """		term = new pTerm(new Term(), &INTERPRETER::interpreter);
		INTERPRETER::interpreter.put((*term)->hash_value, str, (void *)term);
		delete &str;
	}

""")],
        needs="a text with a name that is in use already", breaks="The text of the name is never released.",
        cpp=HEAD + '''
#include <malloc.h>
int main() {
    auto keep = parse("longnamelongnamelongnamelongnamelongname.");
    size_t was = 0;
    for (int i = 0; i < 3000; i++) {
        parse("longnamelongnamelongnamelongnamelongname.");
        if (i == 1000) was = mallinfo2().uordblks;
    }
    CHECK(mallinfo2().uordblks < was + 20000);
}''')
