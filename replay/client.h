// An HTTP server with scripted answers, for driving the client against.
#pragma once
#include "common.h"
#include "HttpClient.h"
#include "HttpHeader.h"
#include <QtNetwork/QTcpServer>
#include <QtNetwork/QTcpSocket>
#include <map>
#include <memory>
using namespace Pillow;
typedef std::vector<std::pair<std::string, std::string>> Hdrs;
static std::string S(const QByteArray& b) { return std::string(b.constData(), b.size()); }
static QByteArray Q(const std::string& s) { return QByteArray(s.data(), int(s.size())); }
static std::string esc(const std::string& s) { return esc(Q(s)); }
static HttpHeaderCollection HC(const Hdrs& h) { HttpHeaderCollection r; for (auto& x : h) r << HttpHeader(Q(x.first), Q(x.second)); return r; }
static Hdrs HD(const HttpHeaderCollection& c) { Hdrs r; for (int i = 0; i < c.size(); ++i) r.push_back({S(c.at(i).first), S(c.at(i).second)}); return r; }
static std::string show(const Hdrs& h) { std::string r; for (auto& x : h) r += esc(x.first) + ": " + esc(x.second) + "; "; return r; }
static void spin(const std::function<bool()>& done, int ms = 20000) { double end = nowSec() + ms / 1000.0; do { QCoreApplication::processEvents(QEventLoop::AllEvents, 1); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); } while (!done() && nowSec() < end); }
static std::string data(unsigned n) { std::string r; r.reserve(n); bool text = rnd(2); for (unsigned i = 0; i < n; ++i) r += char(text ? 'a' + rnd(26) : rnd(256)); return r; }
static unsigned g_big = 0;      // one in g_big sizes is large
static unsigned size() { if (g_big && rnd(g_big) == 0) return 65000 + rnd(150000); switch (rnd(8)) { case 0: return 0; case 1: return 1; case 2: return rnd(10); case 3: return 4090 + rnd(12); case 4: return 16370 + rnd(30); case 5: return 30000 + rnd(5000); default: return rnd(300); } }
static std::string tok(unsigned n) { static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"; std::string r; for (unsigned i = 0; i < n; ++i) r += a[rnd(sizeof a - 1)]; return r; }
static Hdrs someHeaders(bool request)
{
	Hdrs h; for (unsigned i = rnd(6); i > 0; --i) { std::string n = "X" + tok(rnd(12)), v = rnd(6) ? tok(1 + rnd(20)) : ""; if (!v.empty() && rnd(3) == 0) v += " " + tok(1 + rnd(5)); h.push_back({n, v}); }
	if (rnd(12) == 0) for (unsigned i = 0; i < 60; ++i) h.push_back({"X-Many-" + std::to_string(i), tok(1 + rnd(300))});
	if (request && rnd(10) == 0) h.push_back({"Connection", "close"});
	return h;
}
// one answer on the wire and what a client must make of it
struct Answer
{
	std::string raw; int status; Hdrs headers; std::string body; bool keepAlive, byClose; enum End { Complete, Cut, Bad } end; unsigned interim; std::string head; // head: bytes up to the end of the final head
};
static std::string chunked(const std::string& b) { std::string r; size_t p = 0; while (p < b.size()) { size_t n = 1 + rnd(rnd(3) ? 40 : 5000); if (n > b.size() - p) n = b.size() - p; char t[32]; snprintf(t, sizeof t, rnd(2) ? "%zx" : "%zX", n); r += std::string(t) + (rnd(4) ? "" : ";ext=1") + "\r\n" + b.substr(p, n) + "\r\n"; p += n; } return r + "0\r\n" + (rnd(4) ? "" : "") + "\r\n"; }
static Answer answer(bool head, bool allowClose, bool interim = true)
{
	static const int codes[] = { 200, 200, 200, 201, 204, 206, 301, 302, 304, 400, 404, 410, 500, 503, 307 }; Answer a; a.status = codes[rnd(sizeof codes / sizeof *codes)]; a.headers = someHeaders(false); a.keepAlive = true; a.byClose = false; a.end = Answer::Complete; a.interim = 0;
	bool noBody = head || a.status == 204 || a.status == 304; std::string body = noBody ? "" : data(size()), wire; int v = rnd(8) ? 1 : 0; if (v == 0) a.keepAlive = false;
	unsigned how = rnd(3); if (how == 2 && !allowClose) how = 0;
	if (a.status == 204) { }
	else if (a.status == 304 && !head) { }
	else if (how == 1 && v == 1) { a.headers.push_back({rnd(2) ? "Transfer-Encoding" : "transfer-encoding", "chunked"}); wire = noBody ? "" : chunked(body); }
	else if (how == 2 && !noBody) { a.byClose = true; a.keepAlive = false; wire = body; }
	else { a.headers.push_back({rnd(2) ? "Content-Length" : "content-length", std::to_string(head ? rnd(500) : body.size())}); wire = body; }
	if (v == 1 && rnd(6) == 0) { a.headers.push_back({"Connection", rnd(2) ? "close" : "Close"}); a.keepAlive = false; }
	if (v == 0 && rnd(3) == 0 && !a.byClose && a.status != 304 && a.status != 204) { a.headers.push_back({"Connection", "keep-alive"}); a.keepAlive = true; }
	if (rnd(3) == 0 && a.headers.size() > 1) std::swap(a.headers[0], a.headers.back());
	std::string pre; if (interim && rnd(4) == 0) { a.interim = 1 + rnd(3); for (unsigned i = 0; i < a.interim; ++i) { pre += "HTTP/1.1 100 Continue\r\n"; if (rnd(3) == 0) pre += "X-Interim: " + tok(5) + "\r\n"; if (rnd(5) == 0) pre += rnd(3) ? "Connection: close\r\n" : "Connection: keep-alive\r\n"; pre += "\r\n"; } }
	a.raw = pre + "HTTP/1." + std::to_string(v) + " " + std::to_string(a.status) + (rnd(5) ? " Some Reason" : " OK") + "\r\n"; for (auto& h : a.headers) { a.raw += h.first + ":" + (rnd(4) ? " " : rnd(2) ? "" : "  ") + h.second + "\r\n"; } a.raw += "\r\n"; a.head = a.raw; a.raw += wire; a.body = body; return a;
}
// header values as the client must report them: without leading blanks
struct Conn; struct Server;
struct Seen { std::string raw; int conn; };
struct Script { std::string key; std::vector<std::string> pieces; bool close; };      // answers the request whose head line contains the key
struct Server : QTcpServer
{
	struct C { QTcpSocket* s; std::string in; int id; size_t need; };
	std::vector<std::shared_ptr<C>> conns; std::vector<Seen> seen; std::vector<Script> scripts; int made = 0;
	Server() { connect(this, &QTcpServer::newConnection, [this] { while (hasPendingConnections()) add(nextPendingConnection()); }); if (!listen(QHostAddress::LocalHost)) { printf("no loopback\n"); exit(3); } }
	void add(QTcpSocket* s) { auto c = std::make_shared<C>(); c->s = s; c->id = made++; conns.push_back(c); s->setSocketOption(QAbstractSocket::LowDelayOption, 1); connect(s, &QTcpSocket::readyRead, [this, c] { c->in += S(c->s->readAll()); pump(c); }); connect(s, &QTcpSocket::disconnected, [this, c] { c->s->deleteLater(); c->s = 0; }); }
	void pump(std::shared_ptr<C> c)
	{
		for (;;)
		{
			size_t e = c->in.find("\r\n\r\n"); if (e == std::string::npos) return; size_t n = e + 4, l = 0, p = c->in.rfind("Content-Length: ", e); if (p != std::string::npos) l = strtoul(c->in.c_str() + p + 16, 0, 10);
			if (c->in.size() < n + l) return; std::string raw = c->in.substr(0, n + l); c->in.erase(0, n + l); if (scripts.empty() || raw.substr(0, raw.find("\r\n")).find(scripts[0].key) == std::string::npos) continue; seen.push_back({raw, c->id}); if (seen.size() == 1) send(c, scripts[0], 0);
		}
	}
	void send(std::shared_ptr<C> c, Script s, size_t i)
	{
		if (!c->s) return; if (i == s.pieces.size()) { if (s.close) c->s->disconnectFromHost(); return; }
		c->s->write(Q(s.pieces[i])); if (c->s) c->s->flush(); if (!c->s) return; if (i + 1 == s.pieces.size() && s.close && rnd(2)) { c->s->disconnectFromHost(); return; }
		QTimer::singleShot(rnd(3) ? 0 : 1, this, [this, c, s, i] { send(c, s, i + 1); });
	}
	int open() const { int n = 0; for (auto& c : conns) n += c->s != 0; return n; }
};
static std::vector<std::string> pieces(const std::string& raw)
{
	std::vector<std::string> r; unsigned k = rnd(4) == 0 ? 0 : rnd(6); std::vector<size_t> at; for (unsigned i = 0; i < k && !raw.empty(); ++i) at.push_back(rnd(4) ? rnd(unsigned(std::min<size_t>(raw.size(), 200)) + 1) : rnd(unsigned(raw.size()) + 1)); std::sort(at.begin(), at.end()); size_t p = 0; for (size_t x : at) { if (x > p) r.push_back(raw.substr(p, x - p)); p = std::max(p, x); } if (p < raw.size()) r.push_back(raw.substr(p)); return r;
}
static std::string wireRequest(const std::string& method, const std::string& uri, const Hdrs& h, const std::string& body)
{
	std::string r = method + " " + uri + " HTTP/1.1\r\n"; for (auto& x : h) r += x.first + ": " + x.second + "\r\n"; if (!body.empty()) r += "Content-Length: " + std::to_string(body.size()) + "\r\n"; return r + "\r\n" + body;
}
