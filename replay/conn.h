// Reference model of a server connection (written from the properties' statements) and a driver for the real HttpConnection.
#pragma once
#include "common.h"
#include "HttpConnection.h"
#include "HttpHelpers.h"
#include "ByteArrayHelpers.h"
#include "parser/parser.h"
#include <QtNetwork/QtNetwork>
#undef CHECK
#undef FAIL
#define FAIL(...) do { printf("REPLAY-FAIL input: %s\n  ", g_case.c_str()); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
using namespace Pillow;
typedef std::vector<std::pair<std::string, std::string> > Hdrs;
static std::string S(const QByteArray& b) { return std::string(b.constData(), size_t(b.size())); }
static QByteArray Q(const std::string& s) { return QByteArray(s.data(), int(s.size())); }
static std::string esc(const std::string& s) { return esc(Q(s)); }
static bool ieq(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { unsigned char x = a[i], y = b[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return false; } return true; }
static std::string first(const Hdrs& h, const char* n) { for (auto& x : h) if (ieq(x.first, n)) return x.second; return std::string(); }
static int hexd(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; }
static QString decoded(const std::string& s) { QByteArray o; for (size_t i = 0; i < s.size();) if (s[i] == '%' && i + 2 < s.size()) { o += char(hexd(s[i + 1]) * 16 + hexd(s[i + 2])); i += 3; } else o += s[i++]; return QString::fromUtf8(o.constData(), o.size()); }
static std::vector<std::pair<QString, QString> > params(const std::string& q)
{
	std::vector<std::pair<QString, QString> > r; size_t i = 0;
	while (i < q.size()) { size_t e = q.find('&', i); if (e == std::string::npos) e = q.size(); std::string it = q.substr(i, e - i); size_t k = it.find('='); if (k == std::string::npos) r.push_back({ decoded(it), QString() }); else r.push_back({ decoded(it.substr(0, k)), decoded(it.substr(k + 1)) }); i = e + 1; }
	return r;
}
static const char* reason(int c)
{
	static std::map<int, const char*> t = { {100,"Continue"},{101,"Switching Protocols"},{200,"OK"},{201,"Created"},{202,"Accepted"},{203,"Non-Authoritative Information"},{204,"No Content"},{205,"Reset Content"},{206,"Partial Content"},
	{300,"Multiple Choices"},{301,"Moved Permanently"},{302,"Found"},{303,"See Other"},{304,"Not Modified"},{305,"Use Proxy"},{307,"Temporary Redirect"},
	{400,"Bad Request"},{401,"Unauthorized"},{403,"Forbidden"},{404,"Not Found"},{405,"Method Not Allowed"},{406,"Not Acceptable"},{407,"Proxy Authentication Required"},{408,"Request Timeout"},{409,"Conflict"},{410,"Gone"},{411,"Length Required"},{412,"Precondition Failed"},{413,"Request Entity Too Large"},{414,"Request-URI Too Long"},{415,"Unsupported Media Type"},{416,"Requested Range Not Satisfiable"},{417,"Expectation Failed"},
	{500,"Internal Server Error"},{501,"Not Implemented"},{502,"Bad Gateway"},{503,"Service Unavailable"},{504,"Gateway Timeout"},{505,"HTTP Version Not Supported"} };
	auto i = t.find(c); return i == t.end() ? 0 : i->second;
}

// ---- devices
struct Dev : QIODevice
{
	std::vector<std::string> in; size_t pos; std::string out; qint64 pendingWrite; bool hold; int closes, writesAfterClose, readsAfterClose; int failNext, shortMax; bool dead;
	Dev() : pos(0), pendingWrite(0), hold(false), closes(0), writesAfterClose(0), readsAfterClose(0), failNext(0), shortMax(0), dead(false) { open(ReadWrite | Unbuffered); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { if (dead) const_cast<Dev*>(this)->readsAfterClose++; return in.empty() ? 0 : qint64(in[0].size() - pos); }
	qint64 bytesToWrite() const { return pendingWrite; }
	qint64 readData(char* d, qint64 n)
	{
		if (failNext) { --failNext; return -1; }
		if (in.empty()) return 0;
		qint64 m = std::min(n, qint64(in[0].size() - pos)); if (shortMax && m > shortMax) m = shortMax;
		memcpy(d, in[0].data() + pos, size_t(m)); pos += size_t(m); if (pos == in[0].size()) { in.erase(in.begin()); pos = 0; } return m;
	}
	qint64 writeData(const char* d, qint64 n) { if (dead) { ++writesAfterClose; return n; } out.append(d, size_t(n)); if (hold) pendingWrite += n; return n; }
	void close() { if (isOpen()) { ++closes; QIODevice::close(); } }
	void pump() { emit readyRead(); }
	void drained() { qint64 n = pendingWrite; pendingWrite = 0; emit bytesWritten(n); }
};

// ---- requests and what they must be delivered as
struct Req { std::string method, path, query, fragment, version, content, raw; bool hasQ, hasF; Hdrs headers; std::string uri() const { return path + (hasQ ? "?" + query : std::string()); } bool http11() const { return version == "HTTP/1.1"; } };
static std::string pick(const char* const* a, unsigned n) { return a[rnd(n)]; }
#define PICK(...) ([]() { static const char* const a_[] = { __VA_ARGS__ }; return pick(a_, sizeof a_ / sizeof *a_); }())
static std::string urich(bool q) { static const char* a = "abcXYZ019-_.!*'(),:@&=+;"; if (rnd(7) == 0) { char b[5]; snprintf(b, 5, rnd(2) ? "%%%02X" : "%%%02x", rnd(256)); return b; } if (q && rnd(6) == 0) return rnd(2) ? "/" : "?"; return std::string(1, a[rnd(24)]); }
static std::string rcase(std::string s) { for (auto& c : s) if (rnd(3) == 0) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } return s; }
static Req mkReq(bool body = true)
{
	Req r; r.hasQ = r.hasF = false;
	r.method = PICK("GET", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "A", "HEADX", "M-$_.9");
	r.path = "/"; for (int i = rnd(4) ? rnd(12) : 0; i > 0; --i) { if (rnd(5) == 0 && r.path[r.path.size() - 1] != '/') r.path += "/"; r.path += urich(false); }
	if (rnd(2)) { r.hasQ = true; for (int i = rnd(4) ? rnd(16) : 0; i > 0; --i) r.query += urich(true); }
	if (rnd(4) == 0) { r.hasF = true; for (int i = rnd(8); i > 0; --i) r.fragment += urich(true); }
	r.version = PICK("HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/11.1");
	for (int i = rnd(5); i > 0; --i) switch (rnd(8))
	{
	case 0: r.headers.push_back({ rcase("Connection"), PICK("close", "keep-alive", "Close", "KEEP-ALIVE", "upgrade", "", "closed") }); break;
	case 1: r.headers.push_back({ rcase("Expect"), PICK("100-continue", "100-Continue", "other", "") }); break;
	case 2: { std::string v; for (int j = rnd(40); j > 0; --j) v += char(33 + rnd(94)); r.headers.push_back({ "X-Long", v }); break; }
	default: r.headers.push_back({ PICK("Host", "Accept", "X", "Cookie", "A-b", "Content-Lengt", "Content-Lengthx", "Ontent-Length"), PICK("", "a", "b c", "x:y", "1", "\t tab", "\xe9\xff") });
	}
	if (body && rnd(2)) { int n = rnd(5) == 0 ? rnd(9000) : rnd(40); for (int i = 0; i < n; ++i) r.content += char(rnd(4) ? 'a' + rnd(26) : rnd(256)); }
	if (!r.content.empty() || rnd(6) == 0) r.headers.insert(r.headers.begin() + rnd(unsigned(r.headers.size() + 1)), { rcase("Content-Length"), std::to_string(r.content.size()) });
	r.raw = r.method + " " + r.uri() + (r.hasF ? "#" + r.fragment : "") + " " + r.version + "\r\n";
	for (auto& h : r.headers) r.raw += h.first + ":" + std::string(rnd(3), ' ') + h.second + "\r\n";
	r.raw += "\r\n" + r.content;
	return r;
}
static std::vector<std::string> cut(const std::string& s)
{
	std::vector<std::string> r; size_t i = 0; unsigned m = rnd(5);
	if (m == 0) { if (!s.empty()) r.push_back(s); return r; }
	while (i < s.size()) { size_t n = m == 1 ? 1 + rnd(3) : m == 2 ? 1 + rnd(40) : 1 + rnd(unsigned(s.size())); n = std::min(n, s.size() - i); if (m == 1 && s.size() > 400) n = std::min(s.size() - i, size_t(1 + rnd(300))); r.push_back(s.substr(i, n)); i += n; }
	return r;
}

// ---- what the application does with a request and what must then be on the wire
struct Op { enum K { Response, Headers, Content, End, Flush, Close, ResponseString } k; int status; Hdrs headers; std::string data; };
static Hdrs mkHeaders()
{
	Hdrs h;
	for (int i = rnd(4); i > 0; --i) switch (rnd(9))
	{
	case 0: h.push_back({ rcase("Content-Length"), PICK("0", "1", "5", "12", "100", "5000000000", "abc", "") }); break;
	case 1: h.push_back({ rcase("Content-Type"), PICK("text/html", "a/b; c=d", "") }); break;
	case 2: h.push_back({ rcase("Connection"), PICK("close", "keep-alive", "CLOSE", "x") }); break;
	case 3: case 4: h.push_back({ rcase("Transfer-Encoding"), PICK("chunked", "Chunked", "gzip") }); break;
	default: h.push_back({ PICK("X", "Server", "Set-Cookie", "Content-Typ", "Connectionx", ""), PICK("", "v", "a, b", "\xff\xfe", "a long value that takes some room ...........................................") });
	}
	return h;
}
static std::string mkData() { std::string s; unsigned m = rnd(6); int n = m == 0 ? 0 : m == 1 ? int(rnd(6000)) : int(rnd(24)); for (int i = 0; i < n; ++i) s += char(rnd(256)); return s; }
static std::vector<Op> mkOps(bool close)
{
	std::vector<Op> v; int junk = rnd(3) == 0;
	auto op = [](Op::K k) { Op o; o.k = k; o.status = 200; return o; };
	auto st = []() { static int c[] = { 200, 200, 200, 404, 304, 204, 500, 100, 206, 418, 0, -1, 999, 301, 505 }; return c[rnd(15)]; };
	if (junk) { v.push_back(op(rnd(2) ? Op::Content : Op::End)); v.back().data = "junk"; }
	if (close && rnd(6) == 0) v.push_back(op(Op::Close));
	if (rnd(2)) { Op o = op(rnd(6) ? Op::Response : Op::ResponseString); o.status = st(); if (rnd(2)) o.headers = mkHeaders(); o.data = mkData(); if (o.k == Op::ResponseString) o.data = S(QString::fromUtf8("h\xc3\xa9llo").toUtf8()); v.push_back(o); }
	else { Op o = op(Op::Headers); o.status = st(); o.headers = mkHeaders(); v.push_back(o); }
	for (int i = rnd(4); i > 0; --i) { Op o = op(rnd(8) ? Op::Content : Op::Flush); o.data = mkData(); v.push_back(o); if (close && rnd(12) == 0) v.push_back(op(Op::Close)); }
	if (rnd(5)) v.push_back(op(Op::End));
	if (junk) { Op o = op(rnd(2) ? Op::Response : Op::Headers); o.data = "late"; v.push_back(o); v.push_back(op(Op::End)); }
	v.push_back(op(Op::Close));      // only reached when the response is not complete by then
	return v;
}
struct Model     // one response
{
	enum St { SendH, SendC, Done } st; long long cl, sent; bool keep, chunked, closed; std::string out; int status; long long finalLen;
	Model() : st(SendH), cl(-1), sent(0), keep(true), chunked(false), closed(false), status(0), finalLen(0) {}
	void complete() { st = Done; finalLen = cl; }
	void headers(const Req& r, int code, const Hdrs& h)
	{
		if (!reason(code)) code = 500;
		status = code;
		out += r.version + " " + std::to_string(code) + " " + reason(code) + "\r\n"; const std::pair<std::string, std::string>* ct = 0, * cn = 0, * te = 0;
		for (auto& x : h) if (ieq(x.first, "content-length")) { bool ok; cl = Q(x.second).toLongLong(&ok); if (!ok) cl = -1; } else if (ieq(x.first, "content-type")) ct = &x; else if (ieq(x.first, "connection")) cn = &x; else if (ieq(x.first, "transfer-encoding")) te = &x; else out += x.first + ": " + x.second + "\r\n";
		chunked = te && ieq(te->second, "chunked") && r.http11() && cl == -1; bool dropTe = te && ieq(te->second, "chunked") && !chunked;
		std::string c = first(r.headers, "connection"); bool want = r.http11() ? !ieq(c, "close") : ieq(c, "keep-alive");
		keep = want && (cl >= 0 || chunked) && !(cn && ieq(cn->second, "close"));
		if (cl != -1) out += "Content-Length: " + std::to_string(cl) + "\r\n";
		if (ct) out += ct->first + ": " + ct->second + "\r\n"; else if (cl > 0) out += "Content-Type: text/plain\r\n";
		if (!r.http11() || !keep) out += keep ? "Connection: keep-alive\r\n" : "Connection: close\r\n";
		if (te && !dropTe) out += te->first + ": " + te->second + "\r\n";
		out += "\r\n"; st = SendC;
		if (cl == 0 || r.method == "HEAD") complete();
	}
	void content(const Req& r, const std::string& d)
	{
		if (st != SendC || d.empty() || cl == 0 || r.method == "HEAD") return;
		if (cl > 0 && sent + (long long)d.size() > cl) return;
		sent += d.size();
		if (chunked) { char b[20]; snprintf(b, 20, "%zx\r\n", d.size()); out += b; }
		out += d; if (chunked) out += "\r\n";
		if (sent == cl) complete();
	}
	void end() { if (st != SendC || cl >= 0) return; if (chunked) out += "0\r\n\r\n"; else keep = false; complete(); }
	void apply(const Req& r, const Op& o)
	{
		if (closed) return;
		switch (o.k)
		{
		case Op::Response: case Op::ResponseString: if (st != SendH) return; cl = (long long)o.data.size(); headers(r, o.status, o.headers); if (st == SendC) content(r, o.data); break;
		case Op::Headers: if (st == SendH) headers(r, o.status, o.headers); break;
		case Op::Content: content(r, o.data); break;
		case Op::End: end(); break;
		case Op::Flush: break;
		case Op::Close: closed = true; break;
		}
	}
};
static HttpHeaderCollection HC(const Hdrs& h) { HttpHeaderCollection c; for (auto& x : h) c << HttpHeader(Q(x.first), Q(x.second)); return c; }
static void doOp(HttpConnection* c, const Op& o)
{
	switch (o.k)
	{
	case Op::Response: c->writeResponse(o.status, HC(o.headers), Q(o.data)); break;
	case Op::ResponseString: c->writeResponseString(o.status, HC(o.headers), QString::fromUtf8(Q(o.data))); break;
	case Op::Headers: c->writeHeaders(o.status, HC(o.headers)); break;
	case Op::Content: c->writeContent(Q(o.data)); break;
	case Op::End: c->endContent(); break;
	case Op::Flush: c->flush(); break;
	case Op::Close: c->close(); break;
	}
}
static std::string opText(const Op& o) { static const char* n[] = { "writeResponse", "writeHeaders", "writeContent", "endContent", "flush", "close", "writeResponseString" }; std::string s = n[o.k]; s += "("; if (o.k == Op::Response || o.k == Op::Headers) { s += std::to_string(o.status); for (auto& h : o.headers) s += " " + h.first + ": " + h.second; } if (!o.data.empty()) s += " data[" + std::to_string(o.data.size()) + "]=" + esc(o.data.substr(0, 30)); return s + ")"; }

static void checkRequest(HttpConnection* c, const Req& r)
{
	CHECK(S(c->requestMethod()) == r.method, "method %s expected %s", esc(c->requestMethod()).c_str(), esc(r.method).c_str());
	CHECK(S(c->requestUri()) == r.uri(), "uri %s expected %s", esc(c->requestUri()).c_str(), esc(r.uri()).c_str());
	CHECK(S(c->requestPath()) == r.path, "path %s expected %s", esc(c->requestPath()).c_str(), esc(r.path).c_str());
	CHECK(S(c->requestQueryString()) == r.query, "query %s expected %s", esc(c->requestQueryString()).c_str(), esc(r.query).c_str());
	CHECK(S(c->requestFragment()) == r.fragment, "fragment %s expected %s", esc(c->requestFragment()).c_str(), esc(r.fragment).c_str());
	CHECK(S(c->requestHttpVersion()) == r.version, "version %s expected %s", esc(c->requestHttpVersion()).c_str(), esc(r.version).c_str());
	CHECK(c->requestHeaders().size() == int(r.headers.size()), "%d headers expected %d", c->requestHeaders().size(), int(r.headers.size()));
	for (int i = 0; i < c->requestHeaders().size(); ++i) CHECK(S(c->requestHeaders().at(i).first) == r.headers[size_t(i)].first && S(c->requestHeaders().at(i).second) == r.headers[size_t(i)].second, "header %d is %s: %s expected %s: %s", i, esc(c->requestHeaders().at(i).first).c_str(), esc(c->requestHeaders().at(i).second).c_str(), esc(r.headers[size_t(i)].first).c_str(), esc(r.headers[size_t(i)].second).c_str());
	for (auto& h : r.headers) CHECK(S(c->requestHeaderValue(Q(rcase(h.first)))) == first(r.headers, h.first.c_str()), "value of header %s", h.first.c_str());
	CHECK(c->requestHeaderValue("no-such").isEmpty(), "value of an absent header");
	CHECK(S(c->requestContent()) == r.content, "content %s expected %s", esc(c->requestContent()).c_str(), esc(r.content).c_str());
	for (int k = 0; k < 2; ++k)
	{
		CHECK(c->requestUriDecoded() == decoded(r.uri()) && c->requestPathDecoded() == decoded(r.path) && c->requestQueryStringDecoded() == decoded(r.query) && c->requestFragmentDecoded() == decoded(r.fragment), "decoded forms: uri %s path %s query %s fragment %s", esc(c->requestUriDecoded()).c_str(), esc(c->requestPathDecoded()).c_str(), esc(c->requestQueryStringDecoded()).c_str(), esc(c->requestFragmentDecoded()).c_str());
		auto p = params(r.query); const HttpParamCollection& g = c->requestParams();
		CHECK(g.size() == int(p.size()), "%d parameters expected %d", g.size(), int(p.size()));
		for (int i = 0; i < g.size(); ++i) CHECK(g.at(i).first == p[size_t(i)].first && g.at(i).second == p[size_t(i)].second, "parameter %d is %s=%s expected %s=%s", i, esc(g.at(i).first).c_str(), esc(g.at(i).second).c_str(), esc(p[size_t(i)].first).c_str(), esc(p[size_t(i)].second).c_str());
	}
	// editing parameters
	if (rnd(3) == 0)
	{
		auto p = params(r.query);
		for (int k = 0; k < 4; ++k)
		{
			QString n = p.empty() || rnd(3) == 0 ? QString("New%1").arg(rnd(3)) : p[rnd(unsigned(p.size()))].first; if (rnd(2)) n = n.toUpper(); QString v = QString::number(rnd(100)); size_t hit = p.size();
			for (size_t i = 0; i < p.size(); ++i) if (!p[i].first.compare(n, Qt::CaseInsensitive)) { hit = i; break; }
			CHECK(c->requestParamValue(n) == (hit < p.size() ? p[hit].second : QString()), "lookup of parameter %s", esc(n).c_str());
			if (p.empty() && !r.query.empty()) break;
			c->setRequestParam(n, v); if (hit < p.size()) p[hit] = { n, v }; else p.push_back({ n, v });
			const HttpParamCollection& g = c->requestParams(); CHECK(g.size() == int(p.size()), "%d parameters expected %d after setting one", g.size(), int(p.size()));
			for (int i = 0; i < g.size(); ++i) CHECK(g.at(i).first == p[size_t(i)].first && g.at(i).second == p[size_t(i)].second, "parameter %d after setting %s", i, esc(n).c_str());
		}
	}
}

// ---- a run: several requests on one connection
struct Run
{
	HttpConnection c; Dev* in; Dev* outDev; std::vector<Req> reqs; std::vector<std::vector<Op> > ops; std::vector<Model> models; size_t ready, completed; int closedCount; std::string expect; bool sync, finished, inReady; bool expectClosed; int closeIn; int destroyed;
	Run() : in(0), outDev(0), ready(0), completed(0), closedCount(0), sync(true), finished(false), inReady(false), expectClosed(false), closeIn(0), destroyed(0)
	{
		QObject::connect(&c, &HttpConnection::requestReady, [this](HttpConnection* s) { CHECK(s == &c, "sender"); onReady(); });
		QObject::connect(&c, &HttpConnection::requestCompleted, [this](HttpConnection*) { onCompleted(); });
		QObject::connect(&c, &HttpConnection::closed, [this](HttpConnection*) { ++closedCount; CHECK(closedCount == 1, "closed announced twice"); CHECK(c.state() == HttpConnection::Closed, "state in closed()"); in->dead = true; if (outDev) outDev->dead = true; });
	}
	void onReady()
	{
		CHECK(closedCount == 0, "request announced after close"); CHECK(ready == completed, "request announced before the previous one completed");
		CHECK(ready < reqs.size(), "announced a request that was not sent"); CHECK(c.state() == HttpConnection::SendingHeaders, "state %d when announcing", c.state());
		checkRequest(&c, reqs[ready]); ++ready; models.push_back(Model()); pos = 0;
		const Req& r = reqs[ready - 1]; if (!r.content.empty() && ieq(first(r.headers, "expect"), "100-continue")) expect += "HTTP/1.1 100 Continue\r\n\r\n";
		if (sync) play();
	}
	size_t pos; bool playing = false;
	void play()
	{
		size_t me = ready; size_t idx = ready - 1; std::vector<Op>& v = ops[idx];
		while (pos < v.size() && ready == me && completed == idx && !closedCount)
		{
			Op o = v[pos++]; Model& m = models[idx]; size_t before = m.out.size(); m.apply(reqs[idx], o); expect += m.out.substr(before); bool done = m.st == Model::Done, wantClosed = m.closed; bool keep = m.keep;
			if (done && !keep) expectClosed = true;
			if (wantClosed) expectClosed = true;
			int st = m.status; long long fl = m.finalLen; (void)fl;
			if (done && closeIn == 2) { expectClosed = true; }
			doOp(&c, o);
			if (!done && !wantClosed) { CHECK(completed == idx, "completed too early after %s", opText(o).c_str()); CHECK(closedCount == 0, "closed after %s", opText(o).c_str()); CHECK(c.state() == (m.st == Model::SendH ? HttpConnection::SendingHeaders : HttpConnection::SendingContent), "state %d after %s", c.state(), opText(o).c_str()); if (m.st == Model::SendC) CHECK(c.responseStatusCode() == st && c.responseContentLength() == m.cl, "status %d length %lld", c.responseStatusCode(), c.responseContentLength()); }
			if (done) CHECK(completed >= idx + 1, "not completed after %s", opText(o).c_str());
			if (wantClosed) CHECK(c.state() == HttpConnection::Closed && closedCount == 1, "not closed after close()");
			if (rnd(3) == 0) compare(false);
		}
	}
	void onCompleted()
	{
		CHECK(completed < ready, "completed without a request"); CHECK(models[completed].st == Model::Done, "completed announced although the response is not complete"); CHECK(c.state() == HttpConnection::Completed, "state in requestCompleted()");
		CHECK(c.responseStatusCode() == models[completed].status && c.responseContentLength() == models[completed].finalLen, "response status %d length %lld in requestCompleted", c.responseStatusCode(), c.responseContentLength());
		++completed;
		if (closeIn == 2) { c.close(); CHECK(closedCount == 1 && c.state() == HttpConnection::Closed, "close() in requestCompleted"); }
	}
	void compare(bool final)
	{
		std::string got = (outDev ? outDev : in)->out; (void)final;
		if (ready == completed && ready < reqs.size() && ieq(first(reqs[ready].headers, "expect"), "100-continue") && got == expect + "HTTP/1.1 100 Continue\r\n\r\n") return;      // the next request is already being received
		CHECK(got == expect, "bytes on the wire:\n    %s\n  expected:\n    %s", esc(got).c_str(), esc(expect).c_str());
	}
};
static int seq = 0;
static void scenario(bool body, bool close)
{
	Run r; r.in = new Dev; bool two = rnd(4) == 0; if (two) r.outDev = new Dev; Dev* o = two ? r.outDev : r.in; o->hold = rnd(3) == 0; r.sync = rnd(2); if (close && rnd(6) == 0) r.closeIn = 2;
	int n = 1 + int(rnd(4)); std::string all; g_case.clear();
	for (int i = 0; i < n; ++i) { r.reqs.push_back(mkReq(body)); r.ops.push_back(mkOps(close)); all += r.reqs.back().raw; }
	r.in->in = cut(all); if (rnd(4) == 0) r.in->shortMax = 1 + rnd(50);
	g_case = "scenario " + std::to_string(++seq) + (r.sync ? " sync" : " async") + (two ? " two devices" : "") + (o->hold ? " slow" : "") + (r.closeIn ? " close-in-completed" : "") + "; reads of";
	for (auto& s : r.in->in) { g_case += " " + std::to_string(s.size()); if (g_case.size() > 200) break; }
	for (int i = 0; i < n; ++i) { g_case += "\n   request " + esc(r.reqs[size_t(i)].raw) + " ->"; for (auto& p : r.ops[size_t(i)]) g_case += " " + opText(p); }
	r.pos = 0; r.c.initialize(r.in, two ? r.outDev : r.in);
	int idle = 0;
	for (int step = 0; step < 20000 && idle < 6; ++step)
	{
		size_t had = r.in->in.size(), p = r.in->pos, rd = r.ready, cm = r.completed;
		if (rnd(10) == 0 && idle < 3) r.in->failNext = 1;
		if (!r.closedCount && r.c.state() != HttpConnection::Closed) r.in->pump();
		r.in->failNext = 0;
		if (!r.sync && r.ready > r.completed && !r.closedCount && (rnd(2) || idle > 2)) r.play();
		if (o->hold && rnd(3) == 0 && o->pendingWrite) o->drained();
		if (rnd(20) == 0) QCoreApplication::processEvents();
		idle = had == r.in->in.size() && p == r.in->pos && rd == r.ready && cm == r.completed && !o->pendingWrite ? idle + 1 : 0;
	}
	r.compare(true);
	if (r.expectClosed) { CHECK(r.closedCount == 1 && r.c.state() == HttpConnection::Closed, "connection not closed at the end (state %d)", r.c.state()); CHECK(r.in->closes == 1 && (!two || r.outDev->closes == 1), "device closed %d times", r.in->closes); CHECK(r.c.inputDevice() == 0 && r.c.outputDevice() == 0, "devices kept after close"); }
	else { CHECK(r.closedCount == 0, "connection closed although it should stay open"); CHECK(r.ready == r.reqs.size() && r.completed == r.ready, "%d of %d requests announced, %d completed", int(r.ready), int(r.reqs.size()), int(r.completed)); CHECK(r.c.state() == HttpConnection::ReceivingHeaders, "state %d", r.c.state()); }
	CHECK(r.in->writesAfterClose == 0 && (!two || r.outDev->writesAfterClose == 0), "written to a closed device"); CHECK(r.in->readsAfterClose == 0, "read from a closed device");
	bool wasClosed = r.closedCount; size_t outLen = o->out.size(); size_t rdy = r.ready;
	if (wasClosed) { Op x; x.k = Op::Response; x.status = 200; x.data = "zzz"; doOp(&r.c, x); x.k = Op::Headers; doOp(&r.c, x); x.k = Op::Content; doOp(&r.c, x); x.k = Op::End; doOp(&r.c, x); x.k = Op::Flush; doOp(&r.c, x); x.k = Op::Close; doOp(&r.c, x); r.in->in.push_back("GET / HTTP/1.1\r\n\r\n"); r.in->pump(); QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(); CHECK(o->out.size() == outLen && r.ready == rdy && r.closedCount == 1, "active after close"); }
	if (wasClosed && rnd(2))         // the server reuses the object for another socket
	{
		Dev* d = new Dev; r.in->dead = false; Dev* old = r.in; r.in = d; Dev* od = r.outDev; r.outDev = 0; r.closedCount = 0; r.reqs.clear(); r.ops.clear(); r.models.clear(); r.ready = r.completed = 0; r.expect.clear(); r.expectClosed = false; r.closeIn = 0; r.sync = true; r.pos = 0;
		for (unsigned k = rnd(2) ? 0 : rnd(8); k > 0; --k) { g_case += "\n   then reused by a client that says " + std::string(rnd(2) ? "nothing" : "only a part of a large request"); Dev idle; if (g_case.back() == 't') { idle.in.push_back("POST / HTTP/1.1\r\nContent-Length: 200000\r\n\r\n" + std::string(1000 + rnd(150000), 'x')); } r.in = &idle; r.c.initialize(&idle, &idle); if (rnd(2) || !idle.in.empty()) idle.pump(); CHECK(idle.out.empty() && r.closedCount == 0, "an answer to nothing"); r.c.close(); CHECK(r.closedCount == 1, "close() not announced"); r.closedCount = 0; r.in = d; }
		r.reqs.push_back(mkReq(body)); std::vector<Op> v(1); v[0].k = Op::Response; v[0].status = 200; v[0].data = "again"; r.ops.push_back(v); d->in = cut(r.reqs[0].raw); g_case += "\n   then reused for " + esc(r.reqs[0].raw);
		r.c.initialize(d, d); for (int i = 0; i < 20000 && !d->in.empty(); ++i) d->pump(); r.compare(true); CHECK(r.ready == 1 && r.completed == 1, "reused connection: %d announced %d completed", int(r.ready), int(r.completed));
		if (!r.closedCount) r.c.close(); delete old; delete od; delete d; r.in = 0; r.outDev = 0; return;
	}
	if (!r.closedCount) { r.c.close(); CHECK(r.closedCount == 1, "close() not announced"); }
	delete r.in; delete r.outDev; r.in = 0; r.outDev = 0;
	QCoreApplication::sendPostedEvents();
}

// ---- requests that must be refused
static void refused(const std::string& raw, int status, const std::string& what, bool cutIt = true)
{
	g_case = what + " " + esc(raw.substr(0, 300)) + (raw.size() > 300 ? "... of " + std::to_string(raw.size()) + " bytes" : "");
	HttpConnection c; Dev d; int ready = 0, closed = 0; QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection*) { ++ready; }); QObject::connect(&c, &HttpConnection::closed, [&](HttpConnection*) { ++closed; d.dead = true; });
	bool hold = rnd(2); d.hold = hold; if (cutIt) d.in = cut(raw); else d.in.push_back(raw); c.initialize(&d, &d); for (int i = 0; i < 40000 && !d.in.empty() && !closed && c.state() != HttpConnection::Flushing; ++i) d.pump();
	if (hold) { CHECK(!closed && c.state() == HttpConnection::Flushing, "state %d while the error response is still being sent", c.state()); d.pump(); d.drained(); }
	std::string w = "HTTP/1.0 " + std::to_string(status) + " " + reason(status) + "\r\nConnection: close\r\n\r\n";
	CHECK(ready == 0, "announced to the application"); CHECK(d.out == w, "answer %s expected %s", esc(d.out).c_str(), esc(w).c_str()); CHECK(closed == 1 && d.closes == 1 && c.state() == HttpConnection::Closed, "not closed");
	CHECK(!d.writesAfterClose, "written after close");
}
