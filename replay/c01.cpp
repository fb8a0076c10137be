// C01 oracle: a recogniser written from the published grammar against the real parser; whole and split in every way tried.
#include "common.h"
#include "parser/parser.h"
struct Range { int s, l; bool operator==(const Range& o) const { return s == o.s && l == o.l; } };
struct Hdr { int ns, nl, vs, vl; bool operator==(const Hdr& o) const { return ns == o.ns && nl == o.nl && vs == o.vs && vl == o.vl; } };
struct Res { int verdict; int at; Range method, uri, path, query, fragment, version; std::vector<Hdr> headers; };   // verdict 0 incomplete (at = consumed), 1 finished (at = body start), -1 rejected (at = offending byte)
static bool isdig(int c) { return c >= '0' && c <= '9'; }
static bool ishex(int c) { return isdig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool isalp(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool istok(int c) { return c > 32 && c < 127 && !strchr("()<>@,;:\\\"/[]?={}", c); }
struct End { int v; int at; };
struct Ref {
	const unsigned char* b; int n, i; Res r;
	int cur() { if (i >= n) throw End{0, n}; return b[i]; }
	void bad() { throw End{-1, i}; }
	void lit(int c) { if (cur() != c) bad(); ++i; }
	void chars(bool slashOnly) {         // (uchar | reserved)*; in a path '?' ends it
		for (;;) {
			int c = cur();
			if (c == '%') { ++i; if (cur() == 'u') ++i; if (!ishex(cur())) bad(); ++i; if (!ishex(cur())) bad(); ++i; continue; }
			if (c < 32 || c == 127 || c == ' ' || c == '#') return;
			if (slashOnly && c == '?') return;
			++i;
		}
	}
	void head() {
		int k = 0, c;
		while ((c = cur()), (isdig(c) || (c >= 'A' && c <= 'Z') || c == '$' || c == '-' || c == '_' || c == '.') && k < 20) { ++i; ++k; }
		if (k == 0) bad();
		if (cur() != ' ') bad();
		r.method = Range{0, i}; ++i;
		int u = i; c = cur();
		if (c == '*') { ++i; }
		else if (c == '/') {
			chars(true); c = cur();
			if (c != '?' && c != ' ' && c != '#') bad();
			r.path = Range{u, i - u};
			if (c == '?') { ++i; int q = i; chars(false); c = cur(); if (c != ' ' && c != '#') bad(); r.query = Range{q, i - q}; }
		} else {
			while ((c = cur()), isalp(c) || isdig(c) || c == '+' || c == '-' || c == '.') ++i;
			lit(':'); chars(false);
		}
		c = cur(); if (c != ' ' && c != '#') bad();
		r.uri = Range{u, i - u};
		if (c == '#') { ++i; int f = i; chars(false); if (cur() != ' ') bad(); r.fragment = Range{f, i - f}; }
		++i;
		int v = i; for (const char* h = "HTTP/"; *h; ++h) lit(*h);
		if (!isdig(cur())) bad(); while (isdig(cur())) ++i; lit('.'); if (!isdig(cur())) bad(); while (isdig(cur())) ++i;
		if (cur() != '\r') bad();
		r.version = Range{v, i - v}; ++i; lit('\n');
		while (cur() != '\r') {
			Hdr h; h.ns = i; while (istok(cur())) ++i; h.nl = i - h.ns; if (!h.nl) bad(); lit(':');
			while (cur() == ' ') ++i;
			h.vs = i; while (cur() != '\r') ++i; h.vl = i - h.vs;
			r.headers.push_back(h);
			++i; lit('\n');
		}
		++i; lit('\n'); throw End{1, i};
	}
	static Res go(const QByteArray& d) {
		Ref x; x.b = (const unsigned char*)d.constData(); x.n = d.size(); x.i = 0; Range z = {0, 0}; x.r.method = x.r.uri = x.r.path = x.r.query = x.r.fragment = x.r.version = z;
		try { x.head(); } catch (End e) { x.r.verdict = e.v; x.r.at = e.at; }
		return x.r;
	}
};
static const char* g_base; static std::vector<Hdr>* g_h; static int g_avail;
static void field(void*, const char* f, size_t fl, const char* v, size_t vl) { Hdr h = {int(f - g_base), int(fl), int(v - g_base), int(vl)}; g_h->push_back(h); }
static Res real(const QByteArray& d, const std::vector<int>& cuts)
{
	http_parser p; memset(&p, 0xa5, sizeof p); p.data = &p; p.http_field = field; p.header_done = 0; thin_http_parser_init(&p);
	Res r; g_h = &r.headers; int upto = 0; r.verdict = 0; r.at = 0;
	for (size_t k = 0; k <= cuts.size(); ++k) {
		int n = k < cuts.size() ? cuts[k] : d.size(); if (n <= upto) continue;
		// a fresh exact-size buffer: any read past the terminator is seen by ASan
		char* b = (char*)malloc(n + 1); memcpy(b, d.constData(), n); b[n] = 0; g_base = b;
		size_t was = upto; size_t got = thin_http_parser_execute(&p, b, n, upto); upto = n; r.at = int(got); (void)was;
		free(b);
		if (thin_http_parser_has_error(&p)) { CHECK(!thin_http_parser_is_finished(&p), "both error and finished"); r.verdict = -1; break; }
		if (thin_http_parser_is_finished(&p)) { r.verdict = 1; r.at = int(p.body_start); break; }
	}
	r.method = Range{p.request_method_start, p.request_method_len}; r.uri = Range{p.request_uri_start, p.request_uri_len}; r.path = Range{p.request_path_start, p.request_path_len};
	r.query = Range{p.query_string_start, p.query_string_len}; r.fragment = Range{p.fragment_start, p.fragment_len}; r.version = Range{p.http_version_start, p.http_version_len};
	return r;
}
static void cmp(const QByteArray& d, const std::vector<int>& cuts)
{
	g_case = "head " + esc(d) + " split at"; for (size_t i = 0; i < cuts.size() && i < 60; ++i) g_case += " " + std::to_string(cuts[i]);
	Res a = Ref::go(d), b = real(d, cuts);
	static const char* names[] = {"rejected", "incomplete", "finished"};
	CHECK(a.verdict == b.verdict, "parser: %s, grammar: %s (at byte %d)", names[b.verdict + 1], names[a.verdict + 1], a.at);
	CHECK(a.at == b.at, "%s at %d, expected %d", names[b.verdict + 1], b.at, a.at);
	if (a.verdict >= 0) {
		CHECK(a.headers.size() == b.headers.size(), "%d headers reported, expected %d", int(b.headers.size()), int(a.headers.size()));
		for (size_t i = 0; i < a.headers.size(); ++i) CHECK(a.headers[i] == b.headers[i], "header %d reported as name [%d,+%d) value [%d,+%d), expected name [%d,+%d) value [%d,+%d)", int(i), b.headers[i].ns, b.headers[i].nl, b.headers[i].vs, b.headers[i].vl, a.headers[i].ns, a.headers[i].nl, a.headers[i].vs, a.headers[i].vl);
	}
	if (a.verdict == 1) {
#define R(f) CHECK(a.f == b.f, #f " reported as [%d,+%d), expected [%d,+%d)", b.f.s, b.f.l, a.f.s, a.f.l)
		R(method); R(uri); R(path); R(query); R(fragment); R(version);
	}
}
static std::vector<int> each(int n) { std::vector<int> c; for (int i = 1; i < n; ++i) c.push_back(i); return c; }
static void both(const QByteArray& d)
{
	cmp(d, std::vector<int>()); cmp(d, each(d.size()));
	std::vector<int> c; for (int i = 1; i < d.size(); ++i) if (rnd(5) == 0) c.push_back(i); cmp(d, c);
}
int main()
{
	init();
	// canonical heads reaching every part of the grammar; every prefix followed by every byte and by a completion
	QList<QByteArray> heads; heads
		<< "GET /a%20b%u41?q=%41%uff?x#fr%2a HTTP/1.1\r\nHost: a\r\nX-A~:   b c \r\nE:\r\nB:    \r\n\r\n" << "O * HTTP/10.02\r\n\r\n" << "A-B_C.$9 http+x-1.:a?b/c%41#  HTTP/1.0\r\n\r\n"
		<< "ABCDEFGHIJKLMNOPQRST /?# HTTP/1.1\r\nA: b\r\n\r\n" << "ABCDEFGHIJKLMNOPQRSTU / HTTP/1.1\r\n\r\n" << "GET //a;b;c/;=?&?#a HTTP/1.1\r\n\r\n" << "X :%41 HTTP/1.1\r\nA:b\r\nC: \t d\r\n\r\n" << "X *# HTTP/1.1\r\n\r\n" << "GET /p#f HTTP/1.1\r\nA: 1\r\nA: 2\r\n\r\nrest";
	foreach (const QByteArray& h, heads) {
		both(h);
		for (int k = 0; k <= h.size(); ++k) {
			std::vector<int> c; c.push_back(k); cmp(h, c);
			for (int b = 0; b < 256 && timeLeft(); ++b) { QByteArray d = h.left(k) + char(b); both(d + h.mid(k)); both(d + h.mid(k + 1)); if (k < h.size() && b == (unsigned char)h[k]) both(h.left(k) + h.mid(k + 1)); }
		}
	}
	static const char* frag[] = {"GET", "POST", " ", "/", "*", "?", "#", "%", "%4", "%41", "%u41", "a", "HTTP/1.1", "\r\n", "\r", "\n", ":", ";", "Host: a", "X:", "\t", "\x80\xff", "\x7f", "0", ".", "=", "&"};
	while (timeLeft()) {
		QByteArray d;
		switch (rnd(3)) {
		case 0: d = heads[rnd(heads.size())]; for (int k = rnd(4); k-- > 0;) { int p = rnd(d.size() + 1); switch (rnd(4)) { case 0: d.insert(p, char(rnd(256))); break; case 1: d.remove(p, 1 + rnd(3)); break; case 2: d.insert(p, frag[rnd(27)]); break; default: d.insert(p, QByteArray(rnd(80), "ab%4 :/"[rnd(7)])); } } break;
		case 1: for (int k = rnd(30); k-- > 0;) d += frag[rnd(27)]; break;
		default: d = "GET /" + QByteArray(rnd(30), 'a') + " HTTP/1.1\r\n"; for (int k = rnd(8); k-- > 0;) { d += "N" + QByteArray::number(k) + ":" + QByteArray(rnd(4), ' '); for (int m = rnd(12); m-- > 0;) d += char(rnd(6) ? 32 + rnd(95) : rnd(256)); d += "\r\n"; } d += "\r\n";
		}
		if (d.isEmpty()) continue;
		both(d);
	}
	printf("REPLAY-PASS\n"); return 0;
}
