// C19: requests are serialised exactly, each call independent of the earlier ones.
#include "client.h"
struct Cap : QIODevice
{
	std::string got; int writes = 0; Cap() { open(QIODevice::ReadWrite); }
	qint64 readData(char*, qint64) { return 0; } qint64 writeData(const char* d, qint64 n) { got.append(d, size_t(n)); ++writes; return n; }
};
static std::string rdata(unsigned n) { std::string r; for (unsigned i = 0; i < n; ++i) r += char(rnd(256)); return r; }
static unsigned rsize() { switch (rnd(9)) { case 0: case 1: return 0; case 2: return rnd(12); case 3: return 4090 + rnd(12); case 4: return 8180 + rnd(20); case 5: return 16370 + rnd(30); case 6: return rnd(70000); default: return rnd(500); } }
static std::string rtext() { return rnd(12) == 0 ? "" : rnd(10) == 0 ? rdata(1 + rnd(40)) : tok(1 + rnd(rnd(8) ? 20 : 9000)); }
static Hdrs rhdrs() { Hdrs h; unsigned n = rnd(10) == 0 ? 50 + rnd(100) : rnd(6); for (unsigned i = 0; i < n; ++i) h.push_back({rtext(), rtext()}); if (rnd(8) == 0) h.push_back({"Content-Length", "77"}); if (rnd(8) == 0 && n) h.push_back(h[0]); return h; }
static std::vector<std::unique_ptr<std::string>> g_raws;
static QByteArray var(const std::string& s)      // the same bytes held in different ways
{
	switch (rnd(4)) { case 0: { g_raws.emplace_back(new std::string(s)); return QByteArray::fromRawData(g_raws.back()->data(), int(s.size())); } case 1: { QByteArray b; b.reserve(int(s.size()) + 50); b.append(s.data(), int(s.size())); return b; } case 2: { QByteArray b = Q(s); static QByteArray share; share = b; return b; } default: return Q(s); }
}
static void writer()
{
	g_raws.clear(); HttpRequestWriter w; Cap a, b; Cap* cur = 0; int n = 1 + rnd(8); g_case = "writer:"; QByteArray kept;
	for (int i = 0; i < n; ++i)
	{
		if (!cur ? rnd(4) != 0 : rnd(6) == 0) { cur = rnd(5) ? (rnd(2) ? &a : &b) : 0; w.setDevice(cur); g_case += cur ? cur == &a ? " dev-a" : " dev-b" : " no-dev"; } CHECK(w.device() == cur, "device()");
		std::string m, p = rtext(), d = rdata(rsize()); Hdrs h = rhdrs(); if (rnd(20) == 0) p = tok(16200 + rnd(400)); a.got.clear(); b.got.clear();
		int k = rnd(6); g_case += " [" + std::to_string(k) + " path " + std::to_string(p.size()) + " headers " + std::to_string(h.size()) + " data " + std::to_string(d.size()) + "]"; HttpHeaderCollection hc; for (auto& x : h) hc << HttpHeader(var(x.first), var(x.second)); QByteArray qp = var(p), qd = var(d), qm;
		switch (k) { case 0: m = "GET"; d = ""; w.get(qp, hc); break; case 1: m = "HEAD"; d = ""; w.head(qp, hc); break; case 2: m = "POST"; w.post(qp, hc, qd); break; case 3: m = "PUT"; w.put(qp, hc, qd); break; case 4: m = "DELETE"; d = ""; w.deleteResource(qp, hc); break; default: m = rtext(); qm = var(m); w.write(qm, qp, hc, qd); }
		std::string want = wireRequest(m, p, h, d); for (Cap* c : { &a, &b }) { const std::string& x = c == cur ? want : std::string(); size_t j = 0; while (j < x.size() && j < c->got.size() && x[j] == c->got[j]) ++j; CHECK(c->got == x, "%s: sent %zu bytes, expected %zu; first difference at %zu: %s, expected %s", c == cur ? "its device" : "another device", c->got.size(), x.size(), j, esc(c->got.substr(j, 60)).c_str(), esc(x.substr(j, 60)).c_str()); }
		CHECK(S(qp) == p && S(qd).substr(0, d.size()) == d && (k < 5 || S(qm) == m), "an argument was changed"); Hdrs h2 = HD(hc); CHECK(h2 == h, "the headers were changed");
	}
}
static void client()
{
	static Server other; Server s; static QTcpServer* std80 = 0; static bool tried = false; static Server* s80 = 0; (void)std80;
	if (!tried) { tried = true; s80 = new Server; s80->close(); if (!s80->listen(QHostAddress("127.0.0.1"), 80)) { delete s80; s80 = 0; } }
	HttpClient c; int n = 1 + rnd(5); g_case = "client:"; Server* srv = &s; other.seen.clear(); if (s80) s80->seen.clear();
	for (int i = 0; i < n && timeLeft(); ++i)
	{
		if (i && rnd(4) == 0) { srv = srv == &s ? (s80 && rnd(2) ? s80 : &other) : &s; }
		static const char* hosts[] = { "127.0.0.1", "127.0.0.1", "localhost", "LOCALHOST" }; std::string host = hosts[rnd(4)]; int port = srv->serverPort();
		QUrl u; u.setScheme("http"); u.setHost(QString::fromStdString(host)); if (port != 80 || rnd(2)) u.setPort(port); if (rnd(5) == 0) { u.setUserName("user"); u.setPassword("pw"); } host = S(u.host().toLower().toUtf8());
		std::string path = rnd(6) == 0 ? "" : "/" + tok(rnd(10)), query = rnd(3) ? "" : tok(rnd(6)) + "=" + tok(rnd(6)), wpath = path; if (!path.empty() && rnd(4) == 0) { u.setPath(QString::fromStdString(path) + " \xe9/" + "x"); wpath = S(u.path(QUrl::FullyEncoded).toLatin1()); CHECK(wpath.find(' ') == std::string::npos, "path"); } else u.setPath(QString::fromStdString(path));
		if (!query.empty()) u.setQuery(QString::fromStdString(query)); if (rnd(5) == 0) u.setFragment("frag"); if (wpath.empty()) wpath = "/"; if (!query.empty()) wpath += "?" + query;
		Hdrs h = someHeaders(true); std::string m, d; int k = rnd(6); d = rdata(rsize()); srv->seen.clear(); srv->scripts.clear(); bool byClose = rnd(5) == 0; srv->scripts.push_back({"HTTP/1.1", { byClose ? "HTTP/1.1 200 OK\r\n\r\nxy" : "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n" }, byClose});
		int fin = 0; auto cn = QObject::connect(&c, &HttpClient::finished, [&] { ++fin; }); g_case += " [" + std::to_string(k) + " " + S(u.toEncoded()) + " headers " + std::to_string(h.size()) + " data " + std::to_string(d.size()) + "]";
		switch (k) { case 0: m = "GET"; d = ""; c.get(u, HC(h)); break; case 1: m = "HEAD"; d = ""; srv->scripts[0] = {"HTTP/1.1", {"HTTP/1.1 200 OK\r\n\r\n"}, false}; c.head(u, HC(h)); break; case 2: m = "POST"; c.post(u, HC(h), Q(d)); break; case 3: m = "PUT"; c.put(u, HC(h), Q(d)); break; case 4: m = "DELETE"; d = ""; c.deleteResource(u, HC(h)); break; default: m = "X" + tok(1 + rnd(5)); { HttpClientRequest r; r.method = Q(m); r.url = u; r.headers = HC(h); r.data = Q(d); c.request(r); } }
		spin([&] { return fin > 0 && !srv->seen.empty(); }, 5000); QObject::disconnect(cn); if (srv->seen.empty() || c.error() != HttpClient::NoError) { g_case += " (no answer)"; return; }
		Hdrs all = h; all.insert(all.begin(), {"Host", host + (port == 80 ? "" : ":" + std::to_string(port))}); std::string want = wireRequest(m, wpath, all, d), got = srv->seen[0].raw; size_t j = 0; while (j < want.size() && j < got.size() && want[j] == got[j]) ++j;
		CHECK(got == want, "sent %zu bytes, expected %zu; first difference at %zu: %s, expected %s", got.size(), want.size(), j, esc(got.substr(j, 80)).c_str(), esc(want.substr(j, 80)).c_str());
	}
}
int main(int argc, char** argv) { init(); QCoreApplication app(argc, argv); int n = 0, k = 0; while (timeLeft()) { for (int i = 0; i < 40; ++i) { writer(); ++n; } client(); ++k; } printf("REPLAY-OK %d writer histories, %d client histories\n", n, k); return 0; }
