// C10: the tokenizer against an element-level model
#include "vh.hh"
#include "guard.hh"
#include <common/parser.hh>
#include <common/log.hh>
using vh::Case;

enum Kind { SP, NL, CM, TK, QT };
struct El
{
    Kind k;
    std::string text; // source text
    std::string val; // token value
};

static std::string word(Case &c)
{
    std::string r;
    int n = (int)c.s.i(1, 6);
    for (int i = 0; i < n; ++i) {
        char ch = c.s.chance(1, 3) ? (char)c.s.i(33, 126) : c.s.pick<char>({'a', '{', '}', '(', ')', '1', '-', '.', '/', '"', ';', '\\', '_', '[', '*'});
        r += ch;
    }
    if (r[0] == '"' || r[0] == ';')
        r[0] = 'q';
    if (r[0] == '/' && r.size() > 1 && r[1] == '/')
        r[1] = 'x';
    return r;
}
static std::string quoted(Case &c)
{
    std::string r;
    int n = c.s.count(0, 12);
    for (int i = 0; i < n; ++i)
        switch (c.s.draw(6)) {
            case 0: r += ' '; break;
            case 1: r += c.s.pick<std::string>({"\\n", "\\\\", "\\b", "\\\"", "\\'", "\\q", "\\x", "\\7", "\\t", "\\r"}); break;
            case 2: r += (char)c.s.i(128, 255); break;
            case 3: r += c.s.pick<char>({'/', ';', '{', '}', '\t'}); break;
            default: {
                char ch = (char)c.s.i(33, 126);
                if (ch == '"' || ch == '\\')
                    ch = 'z';
                r += ch;
            }
        }
    return r;
}

static std::vector<El> source(Case &c)
{
    std::vector<El> e;
    int n = c.s.count(0, 30);
    for (int i = 0; i < n; ++i) {
        Kind prev = e.empty() ? NL : e.back().k;
        switch (c.s.draw(6)) {
            case 0:
                e.push_back({SP, c.s.pick<std::string>({" ", "\t", "\r", "  ", "\x01"}), ""});
                break;
            case 1:
                if (prev == TK && c.s.b())
                    e.push_back({SP, " ", ""});
                e.push_back({NL, "\n", ""});
                break;
            case 2: {
                if (prev == TK)
                    e.push_back({SP, " ", ""});
                std::string t = c.s.pick<std::string>({"//", ";", "// ", "///"});
                int k = c.s.count(0, 8);
                for (int j = 0; j < k; ++j)
                    t += c.s.pick<char>({'a', ' ', '"', '{', '/', ';', '\t', '#'});
                e.push_back({CM, t, t});
                if (i + 1 < n)
                    e.push_back({NL, "\n", ""});
                break;
            }
            case 3: {
                if (prev == TK)
                    e.push_back({SP, " ", ""});
                std::string q = quoted(c);
                e.push_back({QT, "\"" + q + "\"", q});
                break;
            }
            default: {
                if (prev == TK)
                    e.push_back({SP, " ", ""});
                std::string w = word(c);
                e.push_back({TK, w, w});
            }
        }
    }
    return e;
}

struct Model
{
    const std::vector<El> *e;
    size_t idx = 0;
    size_t line = 1;
    // 1 token, 0 none, -1 error
    int parse(int fl, std::string &tok, bool &quoted)
    {
        if (fl & PARSE_PEEK) {
            Model m = *this;
            return m.parse(fl & ~PARSE_PEEK, tok, quoted);
        }
        for (;;) {
            if (idx >= e->size())
                return (fl & PARSE_OPTIONAL) ? 0 : (fl & PARSE_SAMELINE) ? -1 : 0;
            const El &x = (*e)[idx];
            switch (x.k) {
                case SP: ++idx; continue;
                case NL:
                    if (fl & PARSE_OPTIONAL)
                        return 0;
                    if (fl & PARSE_SAMELINE)
                        return -1;
                    ++idx;
                    ++line;
                    continue;
                case CM:
                    if (fl & PARSE_COMMENT) {
                        tok = x.val;
                        quoted = false;
                        ++idx;
                        return 1;
                    }
                    if (fl & PARSE_OPTIONAL)
                        return 0;
                    if (fl & PARSE_SAMELINE)
                        return -1;
                    ++idx;
                    if (idx < e->size()) {
                        ++idx; // its newline
                        ++line;
                        continue;
                    }
                    return 0;
                case TK:
                case QT:
                    if (fl & PARSE_COMMENT)
                        return 0;
                    tok = x.val;
                    quoted = x.k == QT;
                    ++idx;
                    return 1;
            }
        }
    }
};

static std::string text_of(const std::vector<El> &e)
{
    std::string t;
    for (auto &x : e)
        t += x.text;
    return t;
}
static std::string show(const std::string &t)
{
    std::string r;
    for (char ch : t)
        r += ch == '\n' ? std::string("\\n") : std::string(1, ch);
    return r;
}

static void tokens(Case &c)
{
    auto e = source(c);
    std::string t = text_of(e);
    bool cut = c.s.chance(1, 10); // text ends inside a quoted token
    if (cut)
        t += (!e.empty() && e.back().k == CM ? "\n \"abc" : " \"abc");
    GuardBuf g(t);
    int real = 0;
    for (auto &x : e)
        real += x.k == TK || x.k == QT;
    c.nt(real >= 3);
    c.describe("text: " + show(t));
    parser_t p(g.data, g.size, parser_source_location("src.txt"));
    Model m{&e};
    std::vector<Model> stack;
    bool mixed = c.s.chance(3, 4);
    int n = mixed ? (int)c.s.i(5, 60) : 1000;
    std::string tok;
    bool q = false;
    for (int i = 0; i < n; ++i) {
        if (mixed && c.s.chance(1, 10)) {
            p.push_state();
            stack.push_back(m);
            continue;
        }
        if (mixed && !stack.empty() && c.s.chance(1, 8)) {
            p.pop_state();
            m = stack.back();
            stack.pop_back();
            c.require(p.location.line_number.value() == m.line, "pop-line", "line number after pop_state");
            continue;
        }
        int fl = !mixed ? 0 : c.s.pick<int>({0, 0, 0, PARSE_OPTIONAL, PARSE_SAMELINE, PARSE_PEEK, PARSE_COMMENT, PARSE_COMMENT | PARSE_OPTIONAL,
                                  PARSE_PEEK | PARSE_OPTIONAL, PARSE_PEEK | PARSE_COMMENT});
        // the unterminated quote is the last thing in the text
        Model before = m;
        size_t eidx = m.idx;
        int want = m.parse(fl, tok, q);
        bool reached = cut && (fl & PARSE_PEEK ? [&] { Model x = before; std::string t2; bool q2; x.parse(fl & ~PARSE_PEEK, t2, q2); return x.idx; }() : m.idx) >= e.size();
        (void)eidx;
        bool threw = false, got = false;
        try {
            got = p.parse_token(fl);
        } catch (const ericwtools_error &) {
            threw = true;
        }
        if (cut && reached && want != 1)
            return; // the damaged tail: any clean outcome
        if (threw) {
            c.require(want == -1, "refused", vh::cat("token ", i, " (flags ", fl, ") refused, expected ", want == 1 ? "'" + tok + "'" : "none"));
            return;
        }
        c.require(want != -1, "not-refused", vh::cat("flags ", fl, ": a missing token on the line was not reported"));
        c.require(got == (want == 1), "presence", vh::cat("flags ", fl, ": got ", got ? "'" + p.token + "'" : "none", ", want ", want ? "'" + tok + "'" : "none"));
        if (got) {
            c.require(p.token == tok, "token", vh::cat("got '", p.token, "', want '", tok, "'"));
            c.require(p.was_quoted == q, "quoted", vh::cat("was_quoted wrong for '", tok, "'"));
        }
        c.require(p.location.line_number.value() == m.line, "line", vh::cat("line ", p.location.line_number.value(), ", want ", m.line, " after '", tok, "'"));
        if (!mixed && want != 1)
            break;
    }
    if (!mixed && !cut) {
        c.require(m.idx >= e.size() && p.at_end(), "end", "not at the end of the text after the last token");
    }
}

// a damaged / arbitrary text never makes the tokenizer read outside it or loop
static void garbage(Case &c)
{
    std::string t;
    int n = c.s.count(0, 60);
    for (int i = 0; i < n; ++i)
        t += c.s.chance(1, 6) ? (char)c.s.draw(256) : c.s.pick<char>({'"', '\\', '/', '/', ';', '\n', ' ', 'a', '{', '}', '\r', '0'});
    GuardBuf g(t);
    c.nt(n > 8);
    c.describe("text: " + show(t));
    parser_t p(g.data, g.size, parser_source_location("src.txt"));
    for (int i = 0; i < 200; ++i) {
        int fl = (int)c.s.draw(16);
        try {
            if (!p.parse_token(fl) && (p.at_end() || fl == 0))
                break;
        } catch (const ericwtools_error &) {
            break;
        }
        c.require(p.pos >= g.data && p.pos <= g.data + g.size, "outside", "the tokenizer moved outside its text");
    }
    c.require(p.pos >= g.data && p.pos <= g.data + g.size, "outside", "the tokenizer moved outside its text");
}

static void args(Case &c)
{
    int n = c.s.count(0, 12);
    std::vector<std::string> a;
    for (int i = 0; i < n; ++i)
        a.push_back(c.s.b() ? word(c) : quoted(c));
    std::vector<const char *> av;
    for (auto &x : a)
        av.push_back(x.c_str());
    c.nt(n >= 3);
    token_parser_t p((int)n, av.data(), parser_source_location("args"));
    size_t i = 0;
    std::vector<size_t> st;
    for (int k = 0; k < 40; ++k) {
        c.require(p.at_end() == (i >= a.size()), "args-end", "at_end");
        switch (c.s.draw(5)) {
            case 0:
                p.push_state();
                st.push_back(i);
                break;
            case 1:
                if (!st.empty()) {
                    p.pop_state();
                    i = st.back();
                    st.pop_back();
                }
                break;
            default: {
                bool peek = c.s.b();
                bool got = p.parse_token(peek ? PARSE_PEEK : PARSE_NORMAL);
                c.require(got == (i < a.size()), "args-presence", "argument missing");
                if (got) {
                    c.require(p.token == a[i], "args-token", "argument '" + a[i] + "' came back as '" + p.token + "'");
                    bool ws = a[i].find_first_of(" \t\n\r\v\f") != std::string::npos;
                    c.require(p.was_quoted == ws, "args-quoted", "was_quoted of '" + a[i] + "'");
                    if (!peek)
                        ++i;
                }
            }
        }
    }
}

VH_MAIN("C10", "the text holds at least three tokens (garbage: more than eight bytes)",
    (std::vector<std::string>{"unquoted tokens are ASCII (bytes above 127 count as blanks, as in the engines); quoted tokens hold no line breaks"}),
    vh::Sub{"tokens", tokens, 120000, 4000000}, vh::Sub{"garbage", garbage, 80000, 3000000}, vh::Sub{"args", args, 40000, 1000000})
