// A second translation unit that sees the same globals and tables.
#include "Narsese/include/Narsese.h"
#include "Global.h"
#include "Config.h"
#include <string>
unsigned long verif_other_tu_time() { return GLOBAL::time; }
unsigned long verif_other_tu_input_id() { return GLOBAL::get_input_id(); }
void verif_other_tu_tables(std::string &o)
{
    auto hex = [&](const std::string &s) { static const char *d = "0123456789abcdef"; o += '"'; for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } o += '"'; };
    o += "[";
    for (int i = 0; i <= 11; i++) { if (i) o += ","; hex(COPULA::Repr[i]); }
    for (int i = 0; i <= 14; i++) { o += ","; hex(CONNECTOR::Repr[i]); }
    o += "]";
}
