// C17: the proxy forwards each request to the configured server and relays its answer; whatever either side does, the client's response comes to its end and nothing dangles.
#include "client.h"
#include "HttpServer.h"
#include "HttpConnection.h"
#include "HttpHandlerProxy.h"
#include "HttpHelpers.h"
#include <QtNetwork/QNetworkCookieJar>
#include <QtNetwork/QNetworkReply>
#include <QtCore/QPointer>
#include <set>
#include <zlib.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
static std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string gz(const std::string& d) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY); std::string o(deflateBound(&z, d.size()) + 64, 0); z.next_in = (Bytef*)d.data(); z.avail_in = uInt(d.size()); z.next_out = (Bytef*)&o[0]; z.avail_out = uInt(o.size()); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
// a head and what follows it
struct Msg { std::string line; Hdrs h; std::string rest; bool ok; };
static Msg split(const std::string& raw) { Msg m; m.ok = false; size_t e = raw.find("\r\n\r\n"); if (e == std::string::npos) return m; m.ok = true; m.rest = raw.substr(e + 4); std::string head = raw.substr(0, e + 2); size_t p = head.find("\r\n"); m.line = head.substr(0, p); p += 2; while (p < head.size()) { size_t n = head.find("\r\n", p), c = head.find(':', p); size_t v = c + 1; while (v < n && head[v] == ' ') ++v; m.h.push_back({head.substr(p, c - p), head.substr(v, n - v)}); p = n + 2; } return m; }
static std::vector<std::string> all(const Hdrs& h, const std::string& n) { std::vector<std::string> r; for (auto& x : h) if (low(x.first) == n) r.push_back(x.second); return r; }
static std::string join(const std::vector<std::string>& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + v[i]; return r; }
static std::string bare(std::string v) { std::string r; for (char c : v) if (c != ',' && c != ' ') r += c; return r; }      // Qt leaves empty values out when it joins
// body of a response as its client reads it: 0 incomplete, 1 complete, -1 malformed
static int unframe(const Msg& m, bool head, bool closed, std::string& body, size_t& used)
{
	body.clear(); used = 0; int st = atoi(m.line.c_str() + 9); auto te = all(m.h, "transfer-encoding"), cl = all(m.h, "content-length");
	if (head || st == 204 || st == 304) return 1;
	if (!te.empty())
	{
		size_t p = 0; for (;;) { size_t e = m.rest.find("\r\n", p); if (e == std::string::npos) return 0; char* x; unsigned long n = strtoul(m.rest.c_str() + p, &x, 16); if (x != m.rest.c_str() + e) return -1; p = e + 2; if (m.rest.size() < p + n + 2) { body += m.rest.substr(p, n); return 0; } body += m.rest.substr(p, n); if (m.rest.compare(p + n, 2, "\r\n")) return -1; p += n + 2; if (!n) { used = p; return 1; } }
	}
	if (!cl.empty()) { size_t n = strtoul(cl[0].c_str(), 0, 10); body = m.rest.substr(0, n); used = body.size(); return body.size() == n; }
	body = m.rest; used = body.size(); return closed;
}
struct Plan { std::vector<std::string> pieces; bool close; };
struct Up : QTcpServer       // the proxied server: answers every request by the plan of its path
{
	struct C { QTcpSocket* s; std::string in; int id; };
	std::map<std::string, Plan> plans; std::map<std::string, std::vector<Seen>> seen; std::vector<std::shared_ptr<C>> conns; int made = 0;
	Up() { connect(this, &QTcpServer::newConnection, [this] { while (hasPendingConnections()) add(nextPendingConnection()); }); if (!listen(QHostAddress::LocalHost)) { printf("no loopback\n"); exit(3); } }
	void add(QTcpSocket* s) { auto c = std::make_shared<C>(); c->s = s; c->id = made++; conns.push_back(c); s->setSocketOption(QAbstractSocket::LowDelayOption, 1); connect(s, &QTcpSocket::readyRead, [this, c] { c->in += S(c->s->readAll()); pump(c); }); connect(s, &QTcpSocket::disconnected, [this, c] { c->s->deleteLater(); c->s = 0; for (size_t i = 0; i < conns.size(); ++i) if (conns[i] == c) { conns.erase(conns.begin() + long(i)); break; } }); }
	static std::string key(const std::string& raw) { size_t k = raw.find("/id"); return k == std::string::npos ? std::string() : raw.substr(k, raw.find_first_not_of("0123456789", k + 3) - k); }
	void pump(std::shared_ptr<C> c)
	{
		for (;;)
		{
			Msg m = split(c->in); if (!m.ok) return; size_t l = 0; auto cl = all(m.h, "content-length"); if (!cl.empty()) l = strtoul(cl[0].c_str(), 0, 10);
			if (m.rest.size() < l) return; std::string raw = c->in.substr(0, c->in.size() - m.rest.size() + l); c->in.erase(0, raw.size()); std::string k = key(m.line); CHECK(plans.count(k), "the server was sent a request nobody made: %s", esc(raw.substr(0, 200)).c_str()); seen[k].push_back({raw, c->id}); send(c, plans[k], 0);
		}
	}
	void send(std::shared_ptr<C> c, Plan s, size_t i)
	{
		if (!c->s) return; if (i == s.pieces.size()) { if (s.close) c->s->disconnectFromHost(); return; }
		c->s->write(Q(s.pieces[i])); if (c->s) c->s->flush(); if (!c->s) return; if (i + 1 == s.pieces.size() && s.close && rnd(2)) { c->s->disconnectFromHost(); return; }
		QTimer::singleShot(rnd(3) ? 0 : 1, this, [this, c, s, i] { send(c, s, i + 1); });
	}
};
struct Ask
{
	enum Fate { Good, Cut, Refused, Bad, Hang } fate = Good; Answer a; std::string method, target, path, query, body, raw; Hdrs headers; bool v11 = false, head = false, known = false, leave = false, inHead = false; size_t leaveAt = 0; std::string id; size_t headLen = 0;
};
static bool g_own = false;      // the proxy answered that the server could not be reached
static int g_id = 0; static bool g_faults = false;      // this history has servers that fail
static std::string somePath() { static const char* e[] = { "%20", "%2F", "%25", "%3F", "%C3%A9", "%2520", "+", "a", "Z", "/", ";v=1", "~", "@", ":", ",", "!", "'", "(x)", "*", "%23", "$" }; std::string r; for (unsigned i = rnd(8); i > 0; --i) r += rnd(2) ? tok(1 + rnd(4)) : e[rnd(sizeof e / sizeof *e)]; return r; }
static Ask ask(Up& up)
{
	static const char* ms[] = { "GET", "GET", "GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TEAPOT" }; Ask q; q.method = ms[rnd(10)]; q.head = q.method == "HEAD"; q.v11 = rnd(4) > 0; q.leave = rnd(8) == 0; q.leaveAt = 0; q.inHead = false; q.fate = rnd(5) ? Ask::Good : g_faults ? Ask::Fate(1 + rnd(4)) : Ask::Refused; if (q.leave && rnd(2)) q.fate = Ask::Hang; if (q.fate == Ask::Hang) q.leave = true;
	q.id = "/id" + std::to_string(++g_id); q.path = q.id + (rnd(2) ? "/" + somePath() : ""); if (rnd(3) == 0) q.query = "k" + std::to_string(rnd(9)) + "=" + somePath() + (rnd(2) ? "&q=%26%3D?" : ""); q.target = q.path + (q.query.empty() ? "" : "?" + q.query); std::string frag; if (rnd(6) == 0) frag = "#frag" + tok(3);
	q.headers = someHeaders(false); for (unsigned k = rnd(3); k > 0 && !q.headers.empty(); --k) { auto h = q.headers[rnd(unsigned(q.headers.size()))]; q.headers.push_back({rnd(2) ? low(h.first) : h.first, tok(1 + rnd(5))}); }
	if (rnd(3) == 0) q.headers.push_back({"Cookie", "mine=" + tok(4)}); if (rnd(4) == 0) q.headers.push_back({"Accept-Encoding", rnd(2) ? "gzip" : "identity"}); if (rnd(4) == 0) q.headers.push_back({"User-Agent", "me/" + tok(3)}); q.headers.push_back({"Host", rnd(2) ? "example.org" : "127.0.0.1"});
	if (q.method != "GET" && !q.head && q.method != "DELETE" && rnd(4)) q.body = data(rnd(40) ? size() : 300000); if (!q.body.empty() || rnd(5) == 0) q.headers.push_back({rnd(2) ? "Content-Length" : "content-length", std::to_string(q.body.size())});
	if (rnd(8) == 0) q.headers.push_back({"Connection", rnd(2) ? "close" : "keep-alive"});
	q.raw = q.method + " " + q.target + frag + (q.v11 ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n"); for (auto& h : q.headers) q.raw += h.first + ": " + h.second + "\r\n"; q.raw += "\r\n" + q.body;
	q.a = answer(q.head, true);
	if (rnd(4) == 0) { size_t e = q.a.head.size() - 2; std::string add; for (unsigned k = 1 + rnd(3); k > 0; --k) { Hdrs::value_type h{rnd(2) ? "Set-Cookie" : "set-cookie", "c" + std::to_string(rnd(3)) + "=" + tok(4) + (rnd(2) ? "; path=/" : "; Expires=Wed, 09 Jun 2055 10:18:14 GMT")}; q.a.headers.push_back(h); add += h.first + ": " + h.second + "\r\n"; } q.a.raw.insert(e, add); q.a.head.insert(e, add); }
	if (rnd(4) == 0 && !q.a.headers.empty()) { size_t e = q.a.head.size() - 2; Hdrs::value_type h{"X-Twice", tok(3)}; std::string add; for (int k = 0; k < 2; ++k) { h.second += tok(2); q.a.headers.push_back(h); add += h.first + ": " + h.second + "\r\n"; } q.a.raw.insert(e, add); q.a.head.insert(e, add); }
	if (rnd(5) == 0 && !q.head && q.a.status != 204 && q.a.status != 304 && all(q.a.headers, "transfer-encoding").empty() && all(q.a.headers, "content-length").empty() == q.a.byClose) { std::string z = gz(q.a.body); for (auto& h : q.a.headers) if (low(h.first) == "content-length") h.second = std::to_string(z.size()); q.a.headers.push_back({"Content-Encoding", "gzip"}); q.a.body = z; q.a.head = "HTTP/1.1 " + std::to_string(q.a.status) + " OK\r\n"; for (auto& h : q.a.headers) q.a.head += h.first + ": " + h.second + "\r\n"; q.a.head += "\r\n"; q.a.raw = q.a.head + z; q.a.keepAlive = q.a.keepAlive && !q.a.byClose; }
	q.headLen = q.a.head.size(); std::string raw = q.a.raw; bool close = !q.a.keepAlive || q.a.byClose;
	if (q.fate == Ask::Cut) { raw = raw.substr(0, rnd(3) ? rnd(unsigned(raw.size())) : std::min(raw.size() - 1, q.headLen + rnd(6))); close = true; q.inHead = raw.size() < q.headLen; if (q.a.byClose && raw.size() >= q.headLen) { q.fate = Ask::Good; q.a.body = raw.substr(q.headLen); } else if (raw.size() >= q.headLen && (q.head || q.a.status == 204 || q.a.status == 304)) { q.fate = Ask::Good; raw = q.a.raw; close = !q.a.keepAlive || q.a.byClose; } }
	if (q.fate == Ask::Bad) { raw = rnd(2) ? "HTPP/1.1 200 OK\r\n\r\n" : "garbage " + tok(300); close = true; } if (q.fate == Ask::Hang) { raw = raw.substr(0, rnd(unsigned(raw.size()))); close = false; }
	Plan p; p.close = close; size_t at = 0; while (at < raw.size()) { size_t n = rnd(3) ? raw.size() - at : std::min(raw.size() - at, size_t(1 + rnd(rnd(2) ? 40 : 20000))); if (p.pieces.size() > 60) n = raw.size() - at; p.pieces.push_back(raw.substr(at, n)); at += n; } if (p.pieces.empty()) p.pieces.push_back("");
	up.plans[q.id] = p; return q;
}
static void forwarded(Up& up, const Ask& q)
{
	auto& v = up.seen[q.id]; if ((q.fate == Ask::Bad || g_own) && v.empty()) return; CHECK(!v.empty(), "the request was not forwarded"); bool again = q.fate == Ask::Cut || q.fate == Ask::Hang || q.fate == Ask::Bad; static int all_ = 0, more = 0; if (!again) { ++all_; more += v.size() > 1; CHECK(more < 8 || more * 5 < all_, "%d of %d requests were forwarded more than once", more, all_); }      // the network access manager sends again what a closed connection may have lost
	for (auto& s : v)
	{
		Msg m = split(s.raw); std::string line = q.method + " " + q.target + " HTTP/1.1"; CHECK(m.line == line, "request line at the server: %s, expected %s", esc(m.line).c_str(), esc(line).c_str()); CHECK(m.rest == q.body, "content at the server: %zu bytes %s, expected %zu bytes", m.rest.size(), esc(m.rest.substr(0, 60)).c_str(), q.body.size());
		for (auto& h : q.headers) { std::string n = low(h.first), w = join(all(q.headers, n)), g = join(all(m.h, n)); CHECK(low(n) == "connection" || w == g, "header %s at the server: %s, expected %s", n.c_str(), esc(g).c_str(), esc(w).c_str()); }
		for (auto& h : m.h) { std::string n = low(h.first); static const char* own[] = { "connection", "user-agent", "accept-language", "accept-encoding", "content-length", "content-type", "host", "x-requested-with" }; bool f = !all(q.headers, n).empty(); for (auto o : own) f = f || n == o; CHECK(f, "header %s: %s was not sent by the client", n.c_str(), esc(h.second).c_str()); }
	}
}
// what the client got: 503, the whole answer, or a beginning of it
static void relayed(const Ask& q, const std::string& got, bool closed)
{
	g_own = false; if (q.fate == Ask::Cut && closed && got.empty()) return;      // closed before what had been relayed was sent
	Msg m = split(got); CHECK(m.ok, "no response: %s (closed %d)", esc(got.substr(0, 200)).c_str(), closed); int st = atoi(m.line.c_str() + 9); std::string body; size_t used; int c = unframe(m, q.head, closed, body, used);
	CHECK(m.line.compare(0, 9, q.v11 ? "HTTP/1.1 " : "HTTP/1.0 ") == 0, "status line %s", esc(m.line).c_str()); CHECK(c >= 0, "malformed body %s", esc(m.rest.substr(0, 200)).c_str());
	bool lost = q.fate == Ask::Refused || q.fate == Ask::Bad, cut = q.fate == Ask::Cut;
	if (lost || (cut && q.a.status != 503 && st == 503)) { CHECK(st == 503 && c == 1, "status %d after the server failed", st); for (auto& h : m.h) CHECK(low(h.first).compare(0, 1, "x"), "header %s in a 503", esc(h.first).c_str()); return; }
	if (cut && st == 503 && q.a.status == 503 && all(m.h, "transfer-encoding").empty() && !all(m.h, "content-length").empty() && all(m.h, "content-length")[0] == "0") return;
	if (cut && q.inHead) return;      // how much of the head the network access manager makes out is its own business
	if (q.fate == Ask::Good)
	{
		static int good = 0, lost = 0; bool own = st == 503 && (q.a.status != 503 || all(m.h, "content-length") == std::vector<std::string>(1, "0")); ++good; lost += own;      // a connection that another request had left, closed meanwhile: the network access manager gives up
		g_own = own; if (own) { CHECK(lost < 12 || lost * 5 < good, "%d of %d answers were lost", lost, good); return; }
	}
	CHECK(st == q.a.status, "status %d, expected %d", st, q.a.status);
	for (auto& h : q.a.headers)
	{
		std::string n = low(h.first); if (n == "connection" || n == "transfer-encoding") continue; auto w = all(q.a.headers, n), g = all(m.h, n);
		if (n == "set-cookie") CHECK(w == g, "%zu cookies %s, expected %zu", g.size(), esc(join(g)).c_str(), w.size()); else CHECK(bare(join(w)) == bare(join(g)), "header %s: %s, expected %s", n.c_str(), esc(join(g)).c_str(), esc(join(w)).c_str());
	}
	for (auto& h : m.h) { std::string n = low(h.first); CHECK(n == "content-length" || n == "content-type" || n == "connection" || !all(q.a.headers, n).empty(), "header %s: %s was not sent by the server", esc(h.first).c_str(), esc(h.second).c_str()); }
	if (q.head) { CHECK(m.rest.empty(), "content in a response to HEAD"); return; }
	CHECK(used == m.rest.size() || c == 0, "bytes behind the response: %s", esc(m.rest.substr(used, 100)).c_str());
	if (cut) { CHECK(q.a.body.compare(0, body.size(), body) == 0, "content %s is not a beginning of %s", esc(body.substr(0, 100)).c_str(), esc(q.a.body.substr(0, 100)).c_str()); CHECK(closed, "still open after the server failed"); bool framed = !all(m.h, "transfer-encoding").empty() || !all(m.h, "content-length").empty(); CHECK(!framed || c == 0 || body == q.a.body, "a cut response looks complete: %s", esc(got.substr(0, 200)).c_str()); return; }
	CHECK(c == 1, "incomplete response: %zu bytes of content, closed %d, expected %zu bytes", body.size(), closed, q.a.body.size()); CHECK(body == q.a.body, "content %zu bytes %s, expected %zu bytes %s", body.size(), esc(body.substr(0, 100)).c_str(), q.a.body.size(), esc(q.a.body.substr(0, 100)).c_str());
}
static bool whole(const Ask& q, const std::string& got, bool closed) { Msg m = split(got); if (!m.ok) return closed; std::string b; size_t u; return closed || unframe(m, q.head, closed, b, u) != 0; }
struct Front { std::unique_ptr<HttpServer> server; std::unique_ptr<HttpHandlerProxy> proxy; };
static void history()
{
	static Up* up = new Up; static quint16 dead = 0; if (!dead) { int fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; CHECK(fd >= 0 && !::bind(fd, (sockaddr*)&a, l) && !getsockname(fd, (sockaddr*)&a, &l), "no port"); dead = ntohs(a.sin_port); }      // bound, never listening up->plans.clear(); up->seen.clear(); g_case = "proxy:"; g_faults = rnd(2);
	Front f, r; for (Front* x : { &f, &r }) { x->server.reset(new HttpServer(QHostAddress::LocalHost, 0)); QUrl to(QString("http://127.0.0.1:%1%2").arg(x == &f ? up->serverPort() : dead).arg(rnd(2) ? "" : "/base")); if (rnd(3)) x->proxy.reset(new HttpHandlerProxy(to)); else { QUrl was(to); if (rnd(2)) was.setPort(1 + rnd(1000)); else was = QUrl(); x->proxy.reset(rnd(2) ? new HttpHandlerProxy(was) : new HttpHandlerProxy()); if (rnd(2)) x->proxy->setProxiedUrl(was); x->proxy->setProxiedUrl(to); } QObject::connect(x->server.get(), SIGNAL(requestReady(Pillow::HttpConnection*)), x->proxy.get(), SLOT(handleRequest(Pillow::HttpConnection*))); }
	for (int round = 0, rounds = 1 + int(rnd(4)); round < rounds && timeLeft(); ++round)
	{
		struct Cl { QTcpSocket* s; Ask q; std::string got; bool closed, sent; int left; }; std::vector<std::shared_ptr<Cl>> cs; unsigned n = 1 + rnd(rnd(4) ? 3 : 9);
		for (unsigned i = 0; i < n; ++i)
		{
			auto c = std::make_shared<Cl>(); c->q = ask(*up); c->closed = c->sent = false; c->left = 1 + int(rnd(3)); c->s = new QTcpSocket; Cl* C = c.get(); cs.push_back(c); g_case += " [" + esc(c->q.raw.substr(0, 160)) + " fate " + std::to_string(int(c->q.fate)) + (c->q.leave ? " leaves" : "") + " answered " + esc(c->q.a.raw.substr(0, 160)) + " of " + std::to_string(c->q.a.raw.size()) + "]";
			QObject::connect(C->s, &QTcpSocket::readyRead, [C] { C->got += S(C->s->readAll()); if (C->q.leave && C->got.size() > 200 && C->s->state() == QAbstractSocket::ConnectedState) C->s->abort(); }); QObject::connect(C->s, &QTcpSocket::disconnected, [C] { C->got += S(C->s->readAll()); C->closed = true; });
			C->s->setSocketOption(QAbstractSocket::LowDelayOption, 1); C->s->connectToHost("127.0.0.1", C->q.fate == Ask::Refused ? r.server->serverPort() : f.server->serverPort()); QObject::connect(C->s, &QTcpSocket::connected, [C] { std::string a = C->q.raw; size_t k = rnd(2) ? a.size() : rnd(unsigned(a.size())); C->s->write(Q(a.substr(0, k))); C->s->flush(); C->s->write(Q(a.substr(k))); C->s->flush(); C->sent = true; });
		}
		bool destroy = rnd(12) == 0; double t0 = nowSec(), most = destroy ? rnd(20) / 1000.0 : 20;
		spin([&] { bool all = true; for (auto& c : cs) { if (c->q.leave) { if (!c->closed && c->sent && nowSec() - t0 > 0.004 * (1 + rnd(8))) c->s->abort(); all = all && c->closed; } else all = all && whole(c->q, c->got, c->closed); } return all || nowSec() - t0 > most; }, 30000);
		if (destroy) { g_case += " destroyed"; bool srv = rnd(2); (srv ? (void)f.server.reset() : (void)f.proxy.reset()); spin([&] { return rnd(20) == 0; }, 50); (srv ? (void)f.proxy.reset() : (void)f.server.reset()); spin([&] { return rnd(20) == 0; }, 50); for (auto& c : cs) delete c->s; return; }
		for (int k = 0; k < 4; ++k) spin([&] { return true; });
		for (auto& c : cs) { std::string was = g_case; g_case = esc(c->q.raw.substr(0, 300)) + " fate " + std::to_string(int(c->q.fate)) + " answered " + esc(c->q.a.raw.substr(0, 300)) + " of " + std::to_string(c->q.a.raw.size()) + " bytes; in " + was; bool unheard = false; for (Front* x : { &f, &r }) for (QNetworkReply* y : x->proxy->networkAccessManager()->findChildren<QNetworkReply*>()) unheard = unheard || !y->isFinished(); if (unheard && c->q.fate == Ask::Cut && !whole(c->q, c->got, c->closed)) { g_case = was; continue; }      // the network access manager has not told yet
			if (!c->q.leave) { relayed(c->q, c->got, c->closed); if (c->q.fate != Ask::Refused) forwarded(*up, c->q); } g_case = was; }
		for (auto& c : cs) { c->s->disconnect(); delete c->s; } spin([&] { return true; });
		std::set<QObject*> seen_; CHECK(f.proxy->networkAccessManager()->cookieJar(), "cookie jar");
	}
	spin([&] { return true; }, 5);
}
int main(int argc, char** argv) { init(); g_big = 12; QCoreApplication app(argc, argv); int n = 0; while (timeLeft()) { history(); ++n; } printf("REPLAY-OK %d proxy histories\n", n); return 0; }
