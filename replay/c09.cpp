#include "common.h"
#include "HttpHeader.h"
#include "ByteArrayHelpers.h"
using namespace Pillow;
static char lowc(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static bool ci(const QByteArray& a, const QByteArray& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (lowc(a[i]) != lowc(b[i])) return false; return true; }
static QByteArray rb(int n) { static const char pool[] = "abzAZBCkK@[`{ -:\x00\x20\xc1\xe1\x01\x41\x61\xff\x7f"; QByteArray r; for (int i = 0; i < n; ++i) r.append(rnd(3) ? pool[rnd(sizeof(pool) - 1)] : char(rnd(256))); return r; }
static QByteArray vary(QByteArray b) { for (int i = 0; i < b.size(); ++i) { int k = rnd(6); if (k == 0) b[i] = char(b[i] ^ 32); else if (k == 1 && !rnd(4)) b[i] = char(b[i] + 1); } if (!rnd(6)) b.append('x'); if (!rnd(6) && b.size()) b.chop(1); return b; }
template <class T> static T* tok(const QByteArray& b) { struct S { int n; const char* d; }; static S s; static QByteArray keep; keep = QByteArray(b.constData(), b.size()); s.n = keep.size(); s.d = keep.constData(); return reinterpret_cast<T*>(&s); }
static std::string show(const HttpHeaderCollection& c) { std::string r = "["; for (int i = 0; i < c.size(); ++i) r += esc(c.at(i).first) + "=" + esc(c.at(i).second) + " "; return r + "]"; }
int main()
{
	init();
	for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b)
	{
		QByteArray x("k"), y("K"); x.append(char(a)); y.append(char(b)); g_case = "names " + esc(x) + " and " + esc(y);
		bool w = ci(x, y), wl = lowc(char(a)) == char(b);
		CHECK(ByteArrayHelpers::asciiEqualsCaseInsensitive(x, y) == w, "byte arrays: expected %d", w);
		CHECK(ByteArrayHelpers::asciiEqualsCaseInsensitive(x.constData(), x.size(), y.constData(), y.size()) == w, "raw: expected %d", w);
		CHECK(ByteArrayHelpers::asciiEqualsCaseInsensitive(x, *tok<Token>(y)) == w, "token: expected %d", w);
		{ QLatin1Literal l(y.constData(), y.size()); CHECK(ByteArrayHelpers::asciiEqualsCaseInsensitive(x, l) == w, "latin1: expected %d", w); }
		y[0] = 'k'; if (b < 'A' || b > 'Z') CHECK(ByteArrayHelpers::asciiEqualsCaseInsensitive(x, *tok<LowerCaseToken>(y)) == wl, "lower case token: expected %d", wl);
	}
	for (int it = 0; it < 30000 && timeLeft(); ++it)
	{
		QByteArray name = rb(1 + rnd(8)), value = rb(rnd(8)); HttpHeaderCollection c, orig; int n = rnd(7);
		for (int i = 0; i < n; ++i) { HttpHeader h(rnd(2) ? vary(name) : rb(rnd(9)), rnd(2) ? vary(value) : rb(rnd(9))); orig.append(h); c.append(h); }
		g_case = "collection " + show(orig) + " name " + esc(name) + " value " + esc(value);
		QByteArray first; bool has = false, test = false; QVector<QByteArray> all;
		for (int i = 0; i < n; ++i) { if (ci(orig.at(i).first, name)) { if (!has) first = orig.at(i).second; has = true; all << orig.at(i).second; if (ci(orig.at(i).second, value)) test = true; } }
		CHECK(c.getFieldValue(name) == first && c.getFieldValue(name.constData(), name.size()) == first, "getFieldValue: %s expected %s", esc(c.getFieldValue(name)).c_str(), esc(first).c_str());
		CHECK(c.getFieldValue(*tok<Token>(name)) == first, "getFieldValue(Token)");
		QByteArray low; for (int i = 0; i < name.size(); ++i) low.append(lowc(name[i]));
		CHECK(c.getFieldValue(*tok<LowerCaseToken>(low)) == first, "getFieldValue(LowerCaseToken) %s expected %s", esc(c.getFieldValue(*tok<LowerCaseToken>(low))).c_str(), esc(first).c_str());
		CHECK(c.getFieldValues(name) == all && c.getFieldValues(name.constData(), name.size()) == all, "getFieldValues");
		CHECK(c.testFieldValue(name.constData(), name.size(), value.constData(), value.size()) == test && c.testFieldValue(name, value) == test, "testFieldValue: expected %d", test);
		CHECK(c == orig, "lookup changed the collection");
		// appending
		HttpHeaderCollection d, sum = c; int m = rnd(5); for (int i = 0; i < m; ++i) d.append(HttpHeader(rb(rnd(9)), rb(rnd(9))));
		HttpHeaderCollection d0 = d, c0 = c; if (rnd(2)) sum.squeeze();
		g_case = "append " + show(d) + " to " + show(c); sum += d;
		HttpHeaderCollection w; for (int i = 0; i < c.size(); ++i) w.append(c.at(i)); for (int i = 0; i < d.size(); ++i) w.append(d.at(i));
		CHECK(sum == w && c == c0 && d == d0, "operator+=: %s", show(sum).c_str());
		CHECK((c + d) == w && c == c0, "operator+"); HttpHeaderCollection e = c; e << d; CHECK(e == w, "operator<<"); 
		HttpHeaderCollection s = c; s.squeeze(); s += s; HttpHeaderCollection ww = c; for (int i = 0; i < c.size(); ++i) ww.append(c.at(i)); CHECK(s == ww, "self append: %s", show(s).c_str());
		HttpHeader h(rb(3), rb(3)); HttpHeaderCollection f = c; f += h; CHECK(f.size() == c.size() + 1 && f.last() == h && f.mid(0, c.size()) == static_cast<QVector<HttpHeader>&>(c), "append header");
		HttpHeader h2(h), h3; h3 = h; CHECK(h2 == h && h3 == h && !(h2 != h) && h2.first == h.first && h2.second == h.second, "copy"); HttpHeader h4(h.first + "x", h.second), h5(h.first, h.second + "x"); CHECK(h4 != h && h5 != h, "inequality");
		QPair<QByteArray, QByteArray> pr(h.first, h.second); HttpHeader h6(pr), h7; h7 = pr; CHECK(h6 == h && h7 == h && h == pr, "pair");
	}
#define RAW(lit, a, b) { g_case = "HttpHeader(\"" lit "\")"; HttpHeader h(lit); CHECK(h.first == QByteArray(a) && h.second == QByteArray(b), "got %s / %s", esc(h.first).c_str(), esc(h.second).c_str()); }
	RAW("Name: value", "Name", "value") RAW("Name:value", "Name", "value") RAW("Name:   value  ", "Name", "value  ") RAW("Name", "Name", "") RAW("Name:", "Name", "") RAW("Name:  ", "Name", "")
	RAW(":x", "", "x") RAW("", "", "") RAW("A: b: c", "A", "b: c") RAW("A:\tb", "A", "\tb") RAW(" A : b", " A ", "b") RAW(":", "", "") RAW("::", "", ":") RAW("A", "A", "") RAW("A: :", "A", ":") RAW("Host: a b", "Host", "a b")
	{ HttpHeader h("Host", "val"); CHECK(h.first == "Host" && h.second == "val", "two literals"); }
	{ HttpHeaderCollection c; c << HttpHeader("Hos", "va") << HttpHeader("HOST", "VAL") << HttpHeader("host", "2"); g_case = "literal overloads";
	  CHECK(c.getFieldValue("Host") == "VAL", "literal get"); CHECK(c.getFieldValues("Host").size() == 2, "literal gets"); CHECK(c.testFieldValue("Host", "val") && !c.testFieldValue("Host", "va") && c.testFieldValue("hos", "va"), "literal test");
	  CHECK(c.testFieldValue(Token("Host"), Token("val")) && c.testFieldValue("Host", Token("val")) && c.testFieldValue(Token("Host"), "val"), "token test"); CHECK(c.getFieldValue("nope").isEmpty(), "missing"); }
	return 0;
}
