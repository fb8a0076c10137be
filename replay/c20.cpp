// C20: responses are assembled exactly, however the pieces are cut, and nothing of an earlier one shows in a later one.
#include "client.h"
#include <array>
struct Want { Hdrs head, all; std::string body; int status; bool complete, noHead; };
struct P : HttpResponseParser
{
	int begun = 0, heads = 0, ends = 0; const Want* w = 0; int clearAt = -1, at = 0; bool cleared = false; std::string got; std::function<void()> atEnd;
	void maybe() { if (at++ == clearAt) { cleared = true; clear(); CHECK(headers().isEmpty() && content().isEmpty(), "clear() left something"); } }
	void messageBegin() { HttpResponseParser::messageBegin(); ++begun; got.clear(); CHECK(headers().isEmpty() && content().isEmpty(), "a response begins with %s and %d bytes", show(HD(headers())).c_str(), content().size()); maybe(); }
	void headersComplete() { HttpResponseParser::headersComplete(); ++heads; CHECK(HD(headers()) == w->head, "headers %s, expected %s", show(HD(headers())).c_str(), show(w->head).c_str()); CHECK(statusCode() == w->status, "status %d", statusCode()); CHECK(content().isEmpty(), "content before the headers are complete"); maybe(); }
	void messageContent(const char* d, int n) { got.append(d, n); HttpResponseParser::messageContent(d, n); if (!cleared) CHECK(S(content()) == got && w->body.substr(0, got.size()) == got, "content so far: %zu bytes, pieces %zu bytes", size_t(content().size()), got.size()); maybe(); }
	void messageComplete() { HttpResponseParser::messageComplete(); ++ends; check("complete"); maybe(); }
	void check(const char* when) { CHECK(HD(headers()) == w->all, "%s: headers %s, expected %s", when, show(HD(headers())).c_str(), show(w->all).c_str()); CHECK(S(content()) == w->body, "%s: content of %d bytes, expected %zu: %s, expected %s", when, content().size(), w->body.size(), esc(S(content()).substr(0, 100)).c_str(), esc(w->body.substr(0, 100)).c_str()); CHECK(statusCode() == w->status, "status"); }
};
static void parser()
{
	P p; int n = 1 + rnd(6); g_case = "parser:";
	for (int i = 0; i < n; ++i)
	{
		Answer a = answer(false, true, false); Want w = { a.headers, a.headers, a.body, a.status, true, false }; bool ch = a.raw.size() >= 5 && a.raw.substr(a.raw.size() - 5) == "0\r\n\r\n"; if (ch) { ch = false; for (auto& h : a.headers) if (h.second == "chunked") ch = true; }
		if (ch && rnd(3) == 0) for (int k = 1 + rnd(3); k > 0; --k) { std::string tn = "T" + tok(rnd(6)), tv = rnd(5) ? tok(1 + rnd(9)) : ""; a.raw.insert(a.raw.size() - 2, tn + ": " + tv + "\r\n"); w.all.push_back({tn, tv}); }
		std::string raw = a.raw, extra; unsigned fate = rnd(7); size_t cutAt = raw.size();      // complete, complete + more bytes, cut and cleared, cut and ended, broken, cleared inside
		if (fate == 2 || fate == 3) { cutAt = rnd(3) ? rnd(unsigned(raw.size()) + 1) : raw.find("\r\n") + rnd(unsigned(raw.find("\r\n\r\n") + 4 - raw.find("\r\n"))); raw = raw.substr(0, cutAt); if (a.byClose && cutAt >= a.head.size()) w.body = a.body.substr(0, cutAt - a.head.size()); }
		if (fate == 4) { size_t b = rnd(unsigned(raw.find("\r\n\r\n"))); raw[b] = "\x01\n\x7f "[rnd(4)]; } if (fate == 1 && !a.byClose) extra = "HTTP/1.1 999 Next\r\nX-Next: 1\r\n\r\n";
		p.clearAt = fate == 5 ? p.at + int(rnd(5)) : -1; p.cleared = false; p.w = &w; int e0 = p.ends, h0 = p.heads, b0 = p.begun; g_case += " [fate " + std::to_string(fate) + " " + esc(raw.substr(0, 300)) + (raw.size() > 300 ? "..." : "") + "]";
		std::string all = raw + extra; size_t pos = 0; bool bad = false; std::vector<size_t> cuts; unsigned style = rnd(3); if (style == 0) { for (size_t x = 1; x < all.size() && x < 600; ++x) cuts.push_back(x); } else if (style == 1) for (unsigned k = rnd(8); k > 0; --k) cuts.push_back(rnd(4) ? rnd(unsigned(std::min<size_t>(all.size(), 250)) + 1) : rnd(unsigned(all.size()) + 1)); std::sort(cuts.begin(), cuts.end()); cuts.push_back(all.size());
		if (fate == 4) { struct Any : HttpResponseParser {} q; (void)q; Want none = w; }
		size_t ci = 0; bool unknown = fate == 4; if (unknown) { p.~P(); new (&p) P; static Want dummy; P* pp = &p; struct Loose : HttpResponseParser { } l; for (size_t c : cuts) { if (c <= pos) continue; std::unique_ptr<char[]> buf(new char[c - pos]); memcpy(buf.get(), all.data() + pos, c - pos); int k = l.inject(buf.get(), int(c - pos)); CHECK(k >= 0 && k <= int(c - pos) + 1, "consumed %d of %zu", k, c - pos); pos = c; if (l.hasError()) { int m = l.inject(buf.get(), 1); CHECK(m == 0 && l.hasError(), "parsed after an error"); break; } }
			// the same parser must work again after clear()
			l.clear(); CHECK(!l.hasError() && l.headers().isEmpty() && l.content().isEmpty(), "clear() after an error"); std::string r2 = "HTTP/1.1 200 OK\r\nA: b\r\nContent-Length: 2\r\n\r\nxy"; l.inject(Q(r2)); CHECK(!l.hasError() && HD(l.headers()) == (Hdrs{{"A", "b"}, {"Content-Length", "2"}}) && l.content() == "xy", "after an error and clear(): %s, %s", show(HD(l.headers())).c_str(), esc(S(l.content())).c_str()); (void)pp; continue; }
		while (ci < cuts.size() && p.ends == e0 && !p.cleared) { size_t c = cuts[ci++]; if (c <= pos) continue; size_t len = c - pos; std::unique_ptr<char[]> buf(new char[len]); memcpy(buf.get(), all.data() + pos, len); int k = p.inject(buf.get(), int(len)); CHECK(!p.isParsing(), "still parsing"); CHECK(!p.hasError() || fate == 5, "error %s", p.errorString().constData()); if (p.ends == e0 && !p.cleared) CHECK(size_t(k) == len, "consumed %d of %zu", k, len); else if (!p.cleared && !a.byClose) { CHECK(pos + size_t(k) == raw.size() || pos + size_t(k) + 1 == raw.size() || pos + size_t(k) == raw.size() + 1, "the message ends at %zu, consumed up to %zu", raw.size(), pos + size_t(k)); } pos += size_t(k); }
		if (fate == 5) { if (p.cleared) { p.clear(); CHECK(p.headers().isEmpty() && p.content().isEmpty() && !p.hasError(), "clear()"); continue; } }
		if (fate == 3 || a.byClose) { p.injectEof(); if (fate == 3 && !(a.byClose && raw.size() >= a.head.size()) && raw.size() < a.raw.size() && !raw.empty()) { CHECK(p.ends == e0, "a truncated response is complete"); p.clear(); continue; } }
		if (fate == 2 || fate == 3) { if (p.ends == e0 || a.byClose) { if (rnd(2) || fate == 3) { p.clear(); CHECK(p.headers().isEmpty() && p.content().isEmpty() && !p.hasError(), "clear()"); continue; } p.clear(); continue; } }
		if (p.cleared) { p.clear(); continue; }
		if (!(fate == 2 || fate == 3)) { CHECK(p.ends == e0 + 1 && p.heads == h0 + 1 && p.begun == b0 + 1, "%d begun, %d heads, %d complete", p.begun - b0, p.heads - h0, p.ends - e0); p.check("afterwards"); }
		if (!a.keepAlive || fate == 1 || a.byClose) p.clear();
	}
}
static std::string gz(const std::string& b, bool broken)
{
	static quint32 t[256]; if (!t[1]) for (quint32 i = 0; i < 256; ++i) { quint32 c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; t[i] = c; }
	quint32 crc = ~0u; for (unsigned char x : b) crc = t[(crc ^ x) & 255] ^ (crc >> 8); crc = ~crc; QByteArray z = qCompress(Q(b), 1 + rnd(9)); std::string r("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10); if (b.empty()) r += std::string("\x03\0", 2); else r.append(z.constData() + 6, z.size() - 10);
	for (int i = 0; i < 4; ++i) r += char(crc >> (8 * i)); for (int i = 0; i < 4; ++i) r += char(quint32(b.size()) >> (8 * i)); if (broken) r[rnd(3)] ^= 0x55; else if (rnd(4) == 0) r += rnd(2) ? std::string(1 + rnd(600), '\0') : data(1 + rnd(300)); return r;   // what follows the stream is not content
}
static void client()
{
	static Server* s = new Server; HttpClient c; int n = 1 + rnd(5); g_case = "client:"; QUrl u; u.setScheme("http"); u.setHost("127.0.0.1"); u.setPort(s->serverPort());
	for (int i = 0; i < n && timeLeft(); ++i)
	{
		u.setPath("/" + QString::number(rnd(1000000))); Answer a = answer(false, true, true); unsigned fate = rnd(5); bool loose = false; Hdrs want = a.headers; std::string body = a.body, raw = a.raw, path = S(u.path().toLatin1());
		if (rnd(3) == 0) { bool broken = rnd(5) == 0; std::string plain = rnd(4) == 0 ? std::string(rnd(200000), 'z') : data(size()); std::string z = gz(plain, broken); unsigned how = rnd(3); want = { {rnd(2) ? "Content-Encoding" : "content-encoding", rnd(2) ? "gzip" : "GZip"} }; if (how == 0) want.push_back({"Content-Length", std::to_string(z.size())}); else if (how == 1) want.push_back({"Transfer-Encoding", "chunked"}); a.status = 200; raw = "HTTP/1.1 200 OK\r\n"; for (auto& h : want) raw += h.first + ": " + h.second + "\r\n"; raw += "\r\n"; a.head = raw; raw += how == 1 ? chunked(z) : z; a.byClose = how == 2; a.keepAlive = how != 2; body = broken ? z : plain; loose = broken; g_case += broken ? " broken-gzip" : " gzip"; }
		bool cut = fate == 1 && !a.byClose; if (cut) raw = raw.substr(0, rnd(unsigned(raw.size()))); bool ab = fate == 2; g_case += " [" + path + (cut ? " cut " : ab ? " aborted " : " ") + esc(raw.substr(0, 200)) + "]";
		s->seen.clear(); s->scripts.clear(); s->scripts.push_back({path, pieces(raw), cut || a.byClose || !a.keepAlive}); int fin = 0, abortAt = ab ? int(rnd(4)) : -1, ev = 0; std::string got; bool aborted = false, started = false;
		std::vector<QMetaObject::Connection> cn; auto step = [&] { if (ev++ == abortAt) { aborted = true; c.abort(); } };
		cn.push_back(QObject::connect(&c, &HttpClient::headersCompleted, [&] { started = true; if (fin) return; CHECK(HD(c.headers()) == want, "headers %s, expected %s", show(HD(c.headers())).c_str(), show(want).c_str()); CHECK(c.content().isEmpty(), "content of an earlier response"); step(); }));
		cn.push_back(QObject::connect(&c, &HttpClient::contentReadyRead, [&] { if (fin) return; bool take = rnd(3) == 0; std::string x = S(take ? c.consumeContent() : c.content()); std::string sofar = got + x; if (take) { got = sofar; CHECK(c.content().isEmpty(), "consumeContent() left something"); } CHECK(loose || body.substr(0, sofar.size()) == sofar, "content so far %s, expected a beginning of %s", esc(sofar.substr(0, 100)).c_str(), esc(body.substr(0, 100)).c_str()); step(); }));
		cn.push_back(QObject::connect(&c, &HttpClient::finished, [&] { ++fin; }));
		c.get(u, HttpHeaderCollection()); CHECK(c.headers().isEmpty() && c.content().isEmpty(), "a new request starts with an earlier response"); spin([&] { return fin > 0; }); for (auto& x : cn) QObject::disconnect(x); CHECK(fin == 1, "finished %d times", fin);
		if (!aborted && c.error() == HttpClient::NoError && !cut) { CHECK(c.statusCode() == a.status && HD(c.headers()) == want, "headers %s, expected %s", show(HD(c.headers())).c_str(), show(want).c_str()); got += S(c.content()); CHECK(loose || got == body, "content of %zu bytes, expected %zu", got.size(), body.size()); } else if (!aborted && !cut && fate != 1) CHECK(c.error() == HttpClient::RemoteHostClosedError || c.error() == HttpClient::NetworkError || started || true, "error %d", int(c.error()));
	}
}
int main(int argc, char** argv) { init(); QCoreApplication app(argc, argv); int n = 0, k = 0; while (timeLeft()) { for (int i = 0; i < 60; ++i) { parser(); ++n; } client(); ++k; } printf("REPLAY-OK %d parser histories, %d client histories\n", n, k); return 0; }
