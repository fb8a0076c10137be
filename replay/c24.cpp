// C24: the access log writes one faithful line per request.
#include <set>
#include "conn.h"
#define private public
#include "HttpHandler.h"
#undef private
#include <QtNetwork/QTcpServer>
#include <QtNetwork/QTcpSocket>
struct LogDev : QIODevice { std::string out; LogDev() { open(WriteOnly | Unbuffered); } qint64 readData(char*, qint64) { return -1; } qint64 writeData(const char* d, qint64 n) { out.append(d, size_t(n)); return n; } };
static bool digits(const std::string& s, size_t& i) { size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; return i > b; }
// one line: prefix addr - - [dd/MMM/yyyy hh:mm:ss] "rest" tail, tail with the elapsed seconds
static void checkLine(const std::string& l, const std::string& prefix, const std::string& addr, const std::string& req, const std::string& tail, double maxElapsed, double minElapsed = 0)
{
	std::string p = prefix + addr + " - - ["; CHECK(l.compare(0, p.size(), p) == 0, "line %s does not start with %s", esc(l).c_str(), esc(p).c_str());
	size_t e = l.find(']', p.size()); CHECK(e != std::string::npos, "line %s", esc(l).c_str()); std::string date = l.substr(p.size(), e - p.size()); QDateTime t = QDateTime::fromString(QString::fromStdString(date), "dd/MMM/yyyy hh:mm:ss"); CHECK(t.isValid() && qAbs(t.secsTo(QDateTime::currentDateTime())) <= 3, "date %s", esc(date).c_str());
	std::string r = "] \"" + req + "\" " + tail; CHECK(l.compare(e, r.size(), r) == 0, "line %s, expected %s in it", esc(l).c_str(), esc(r).c_str()); std::string rest = l.substr(e + r.size());
	if (maxElapsed < 0) { CHECK(rest.empty(), "line %s goes on after %s", esc(l).c_str(), esc(r).c_str()); return; }
	size_t i = 0; CHECK(rest.size() > 1 && rest[0] == ' ', "line %s", esc(l).c_str()); ++i; CHECK(digits(rest, i) && i < rest.size() && rest[i] == '.' && rest.size() == i + 4 && isdigit((unsigned char)rest[i + 1]) && isdigit((unsigned char)rest[i + 2]) && isdigit((unsigned char)rest[i + 3]), "elapsed time %s", esc(rest).c_str());
	double s = atof(rest.c_str()); CHECK(s <= maxElapsed + 0.0015 && s >= minElapsed - 0.0015, "elapsed %f, measured at most %f, at least %f", s, maxElapsed, minElapsed);
}
struct Client { HttpConnection* c; Dev* d; bool open, pending; std::string req; double start, tmin; int requests; };
static bool trace; static LogDev* g_log; static size_t seen;
static std::string next() { CHECK(seen < g_log->out.size(), "a line is missing"); size_t e = g_log->out.find('\n', seen); CHECK(e != std::string::npos, "unterminated line"); std::string l = g_log->out.substr(seen, e - seen); seen = e + 1; return l; }
static void none(const char* when) { CHECK(seen == g_log->out.size(), "unexpected line %s %s", esc(g_log->out.substr(seen)).c_str(), when); }
static void scenario()
{
	trace = rnd(2); LogDev log; g_log = &log; seen = 0; Pillow::HttpHandlerLog* h; if (trace || rnd(2)) h = new Pillow::HttpHandlerLog(trace ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests, &log); else if (rnd(2)) h = new Pillow::HttpHandlerLog(&log); else { h = new Pillow::HttpHandlerLog; h->setDevice(&log); }
	CHECK(h->device() == &log && (h->mode() == Pillow::HttpHandlerLog::TraceRequests) == trace, "configuration");
	std::vector<Client> cs; int alive = 0; g_case = trace ? "trace:" : "completed:"; std::set<HttpConnection*> known;
	for (int step = 0; step < 40; ++step)
	{
		unsigned k = rnd(10);
		if (k < 2 || cs.empty()) { Client x; x.c = new HttpConnection; x.d = new Dev; x.open = true; x.pending = false; x.requests = 0; QObject::connect(x.c, &HttpConnection::requestReady, [h](HttpConnection* r) { CHECK(!h->handleRequest(r), "the log took the request"); }); x.c->initialize(x.d, x.d); cs.push_back(x); continue; }
		Client& x = cs[rnd(unsigned(cs.size()))];
		if (k < 6 && x.open && !x.pending)      // a request arrives
		{
			std::string uri = "/"; for (int i = rnd(10); i > 0; --i) uri += rnd(8) == 0 ? std::string(PICK("\xd0\x96", "\xe2\x82\xac", "\xc3\xa9", "\xf0\x9f\x98\x80")) : rnd(4) ? urich(false) : "%1" + std::string(1, char('0' + rnd(10))); if (rnd(2)) uri += "?q=%12%34%56%78"; std::string m = PICK("GET", "HEAD", "POST", "DELETE"), v = PICK("HTTP/1.1", "HTTP/1.0");
			x.req = m + " " + uri + " " + v; g_case += " [" + x.req + "]"; if (rnd(4) == 0) x.req += "";
			x.start = nowSec(); x.d->in.push_back(m + " " + uri + (rnd(4) ? "" : "#f") + " " + v + "\r\nConnection: " + (rnd(3) ? "keep-alive" : "close") + "\r\n\r\n"); x.d->pump(); x.pending = true; ++x.requests; known.insert(x.c); x.tmin = nowSec();
			if (trace) checkLine(next(), "[BEGIN] ", "", x.req, "- - -", -1); none("after a request arrived");
		}
		else if (k < 9 && x.open && x.pending)  // it is answered
		{
			int code = rnd(2) ? 200 : rnd(2) ? 404 : 777, real = code == 777 ? 500 : code; std::string body = rnd(3) ? "hello" : ""; bool chunk = rnd(3) == 0; g_case += " answered"; std::string len = std::to_string(body.size()); double slow = 0; if (rnd(60) == 0) { usleep(40000); }
			slow = nowSec() - x.tmin; bool head = x.req.compare(0, 5, "HEAD ") == 0;
			if (chunk) { x.c->writeHeaders(code, HttpHeaderCollection() << HttpHeader("Transfer-Encoding", "chunked")); if (!head) { none("before the response completed"); x.c->writeContent("abc"); none("before the response completed"); x.c->endContent(); } len = "-1"; }
			else x.c->writeResponse(code, HttpHeaderCollection(), QByteArray(body.c_str()));
			double took = nowSec() - x.start; checkLine(next(), trace ? "[ END ] " : "", "", x.req, std::to_string(real) + " " + len, took, slow); x.pending = false;
			if (x.c->state() == HttpConnection::Closed) { x.open = false; if (trace) checkLine(next(), "[CLOSE] ", "", x.req, std::to_string(real) + " " + len, nowSec() - x.start, slow); } none("after the response");
		}
		else if (k == 9)
		{
			bool kill = rnd(2); g_case += kill ? " destroyed" : " closed";
			if (x.open) { x.c->close(); x.open = false; if (trace && x.requests) { std::string l = next(); CHECK(l.compare(0, 8, "[CLOSE] ") == 0 && l.find("\"" + x.req + "\"") != std::string::npos, "line %s", esc(l).c_str()); } none("after closing"); x.pending = false; }
			if (kill) { known.erase(x.c); delete x.c; delete x.d; cs.erase(cs.begin() + (&x - &cs[0])); none("after destroying"); }
			else { x.d->in.clear(); x.d->pos = 0; x.d->open(QIODevice::ReadWrite | QIODevice::Unbuffered); x.c->initialize(x.d, x.d); x.open = true; }      // reused, as the server does
		}
		CHECK(h->_requestTimerMap.size() == int(known.size()), "%d timers for %d connections", h->_requestTimerMap.size(), int(known.size()));
		(void)alive;
	}
	delete h;                    // the connections outlive the log
	for (auto& x : cs) { if (x.open && x.pending) x.c->writeResponse(200); none("after the log was destroyed"); delete x.c; delete x.d; }
}
static void address()
{
	g_case = "request over a real socket"; trace = false; LogDev log; g_log = &log; seen = 0; Pillow::HttpHandlerLog h(&log); QTcpServer srv; if (!srv.listen(QHostAddress::LocalHost)) return; QTcpSocket cl; cl.connectToHost(QHostAddress::LocalHost, srv.serverPort()); if (!cl.waitForConnected(2000) || !srv.waitForNewConnection(2000)) return; QTcpSocket* s = srv.nextPendingConnection();
	HttpConnection c; QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection* r) { h.handleRequest(r); r->writeResponse(200, HttpHeaderCollection(), "x"); }); c.initialize(s, s); double t = nowSec(); cl.write("GET /a HTTP/1.1\r\n\r\n"); cl.flush(); for (int i = 0; i < 400 && seen == log.out.size(); ++i) { QCoreApplication::processEvents(QEventLoop::AllEvents, 10); usleep(1000); }
	checkLine(next(), "", "127.0.0.1", "GET /a HTTP/1.1", "200 1", nowSec() - t); c.close(); none("after closing");
}
int main(int argc, char** argv) { init(); QCoreApplication app(argc, argv); address(); while (timeLeft()) scenario(); return 0; }
