// C21: every request of the client ends in exactly one notification with the right outcome, over histories of requests, answers, failures, aborts and re-entrant calls.
#include "client.h"
enum Abort { NoAbort, AtHeaders, AtContent, Outside };
struct Step { std::string method; int server; std::string host, path, key; Hdrs headers; std::string body; Answer a; Abort abort; bool reenter, refused, deliverAll; int timeout; bool double_; };
static Step mkStep(bool limited)
{
	Step s; static const char* ms[] = { "GET", "HEAD", "POST", "PUT", "DELETE", "PATCH" }; s.method = ms[rnd(6)]; s.server = rnd(5) == 0; s.host = rnd(6) ? "127.0.0.1" : "localhost"; static int serial = 0; s.key = "/s" + std::to_string(++serial) + "/"; s.path = s.key + tok(rnd(10)) + (rnd(2) ? "?" + tok(1 + rnd(8)) : ""); s.headers = someHeaders(true); if (s.method != "GET" && s.method != "HEAD" && s.method != "DELETE") s.body = data(size());
	s.a = answer(s.method == "HEAD", !limited); s.abort = rnd(7) ? NoAbort : Abort(1 + rnd(3)); s.reenter = rnd(2); s.refused = rnd(25) == 0; s.timeout = rnd(10) ? -1 : 0; s.double_ = rnd(6) == 0;
	if (!limited && rnd(6) == 0)
	{
		if (rnd(2)) { s.a.end = Answer::Cut; size_t lim = s.method == "HEAD" ? s.a.head.size() - 1 : s.a.byClose ? s.a.head.size() - 1 : s.a.raw.size() - 1; s.a.raw = s.a.raw.substr(0, rnd(unsigned(lim) + 1)); }
		else { s.a.end = Answer::Bad; std::string b[] = { "HTTQ/1.1 200 OK\r\n\r\n", "garbage garbage\r\n\r\n", "HTTP/1.1 20x OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 1x\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" }; unsigned k = rnd(s.method == "HEAD" ? 4 : 5); s.a.raw = b[k]; }
		s.a.keepAlive = false; s.a.byClose = false;
	}
	if (s.refused) s.abort = NoAbort;
	return s;
}
static std::string text(const Step& s) { return s.method + " host" + s.host + " server" + std::to_string(s.server) + " answer" + esc(s.a.raw).substr(0, 150) + (s.a.byClose ? " then close" : "") + (s.a.end == Answer::Cut ? " cut, then close" : "") + (s.abort ? " abort" + std::to_string(s.abort) : std::string()) + (s.reenter ? " next from finished()" : "") + (s.refused ? " refused" : "") + " timeout" + std::to_string(s.timeout) + "\n    "; }
static void history()
{
	Server srv[2]; HttpClient c; QTcpSocket held; held.bind(QHostAddress(QHostAddress::LocalHost)); int dead = held.localPort();
	unsigned limit = rnd(6) ? 0 : 1 + rnd(rnd(2) ? 100 : 5000); c.setReadBufferSize(limit); bool nested = limit && rnd(3) == 0; std::vector<Step> steps; unsigned n = 2 + rnd(8); for (unsigned i = 0; i < n; ++i) steps.push_back(mkStep(limit)); g_case = "client history, read buffer " + std::to_string(limit) + (nested ? ", event loops in slots" : "") + ":\n    "; for (auto& s : steps) g_case += text(s);
	unsigned cur = 0; int finished = 0, headersDone = 0; std::string got; bool started = false; std::string prevHost; int prevPort = -2; bool reusable = false; int conns[2] = {0, 0}; std::vector<std::string> expectRaw[2]; int expectConn = -1; unsigned answeredBad = 0; bool loopIn = false;
	auto start = [&] {
		Step& s = steps[cur]; finished = 0; headersDone = 0; got.clear(); started = true; c.setKeepAliveTimeout(s.timeout); Server& v = srv[s.server]; int port = s.refused ? dead : v.serverPort();
		Script sc; sc.pieces = pieces(s.a.raw); sc.close = s.a.byClose || s.a.end == Answer::Cut || (!limit && s.a.end == Answer::Complete && !s.a.keepAlive && rnd(2)); sc.key = s.key; if (!s.refused) { v.scripts.clear(); v.scripts.push_back(sc); }
		QUrl u(QString("http://%1:%2%3").arg(QString::fromStdString(s.host)).arg(port).arg(QString::fromStdString(s.path)));
		bool sameServer = prevHost == s.host && prevPort == port; prevHost = s.host; prevPort = port; bool reuse = reusable && sameServer && s.timeout != 0; expectConn = reuse ? v.made - 1 : reusable && sameServer ? -2 : -1; v.seen.clear(); if (!reuse && !s.refused) { conns[s.server] = v.made; }
		HttpHeaderCollection h = HC(s.headers); QByteArray b = Q(s.body);
		switch (s.method[0] == 'P' ? s.method[1] : s.method[0]) { case 'G': c.get(u, h); break; case 'H': c.head(u, h); break; case 'D': c.deleteResource(u, h); break; case 'O': c.post(u, h, b); break; case 'U': c.put(u, h, b); break; default: c.request("PATCH", u, h, b); }
		if (s.double_ && c.responsePending()) { c.get(QUrl("http://127.0.0.1:1/never")); CHECK(c.responsePending() && finished == 0, "a second request disturbed the pending one"); }
	};
	auto judge = [&] {
		Step& s = steps[cur]; Server& v = srv[s.server]; HttpClient::Error e = c.error(), want = HttpClient::NoError; CHECK(!c.responsePending(), "finished while a response is pending");
		if (s.refused) want = HttpClient::NetworkError; else if (s.a.end == Answer::Bad) want = HttpClient::ResponseInvalidError; else if (s.a.end == Answer::Cut) want = HttpClient::RemoteHostClosedError;
		bool aborted = e == HttpClient::AbortedError && s.abort; bool early = (nested || loopIn) && e == HttpClient::RemoteHostClosedError && (loopIn || s.a.byClose || !s.a.keepAlive); if ((s.abort == NoAbort || !aborted) && !early) CHECK(e == want, "step %u: error %d expected %d, content %zu of %zu", cur, int(e), int(want), S(c.content()).size(), s.a.body.size());
		if (e == HttpClient::NoError) { CHECK(c.statusCode() == s.a.status, "step %u: status %d expected %d", cur, c.statusCode(), s.a.status); CHECK(HD(c.headers()) == s.a.headers, "step %u: headers %s expected %s", cur, show(HD(c.headers())).c_str(), show(s.a.headers).c_str()); CHECK(got + S(c.content()) == s.a.body, "step %u: content %s expected %s", cur, esc(got + S(c.content())).c_str(), esc(s.a.body).c_str()); CHECK(headersDone == 1, "step %u: headersCompleted %d times", cur, headersDone); }
		if (!s.refused && !(aborted)) { CHECK(v.seen.size() == 1, "step %u: server saw %zu requests", cur, v.seen.size()); Hdrs h; h.push_back({"Host", s.host + ":" + std::to_string(v.serverPort())}); for (auto& x : s.headers) h.push_back(x); std::string w = wireRequest(s.method, s.path, h, s.body); CHECK(v.seen[0].raw == w, "step %u: server received %s expected %s", cur, esc(v.seen[0].raw).c_str(), esc(w).c_str()); if (expectConn >= 0 && !nested) CHECK(v.seen[0].conn == expectConn, "step %u: not sent over the open connection", cur); else if (expectConn == -1) CHECK(v.seen[0].conn >= conns[s.server], "step %u: sent over an old connection", cur); }
		reusable = e == HttpClient::NoError && s.a.keepAlive && s.timeout != 0;
	};
	QObject::connect(&c, &HttpClient::headersCompleted, [&] { ++headersDone; CHECK(started && finished == 0, "headersCompleted out of turn"); if (steps[cur].abort == AtHeaders) c.abort(); });
	QObject::connect(&c, &HttpClient::contentReadyRead, [&] { CHECK(started && finished == 0, "contentReadyRead out of turn"); if (limit || rnd(3) == 0) got += S(c.consumeContent()); if (nested && rnd(3) == 0) { QEventLoop l; QTimer::singleShot(rnd(3), &l, SLOT(quit())); l.exec(); } if (steps[cur].abort == AtContent && !finished) c.abort(); });
	QObject::connect(&c, &HttpClient::finished, [&] { CHECK(started, "finished without a request"); ++finished; CHECK(finished == 1, "step %u finished twice", cur); judge(); bool again = steps[cur].reenter && cur + 1 < steps.size(); started = false; if (again) { bool bad = c.error() == HttpClient::ResponseInvalidError; ++cur; bool lp = bad && rnd(2); if (lp) loopIn = true; start(); if (lp) { QEventLoop l; QTimer::singleShot(rnd(20), &l, SLOT(quit())); l.exec(); } } });
	start();
	for (;;)
	{
		unsigned at = cur; loopIn = loopIn && started; double until = nowSec() + 20; int turns = 0;
		spin([&] { if (cur == at && started && steps[cur].abort == Outside && ++turns == 4) { c.abort(); return true; } return !started; }); 
		if (started && cur == at && steps[cur].abort == Outside && nowSec() < until) continue;
		if (started && cur != at) continue;
		CHECK(!started, "step %u never finished", cur);
		for (int i = 0; i < 3; ++i) { QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); }
		if (cur + 1 >= steps.size()) break; if (started) continue;
		if (reusable && rnd(8) == 0) { for (int k = 0; k < 2; ++k) for (auto& x : srv[k].conns) if (x->s) x->s->disconnectFromHost(); spin([&] { return srv[0].open() + srv[1].open() == 0; }); for (int i = 0; i < 20; ++i) QCoreApplication::processEvents(QEventLoop::AllEvents, 1); reusable = false; }
		++cur; start();
	}
}
int main(int ac, char** av)
{
	QCoreApplication app(ac, av); init(); unsigned n = 0;
	while (timeLeft()) { history(); ++n; }
	fprintf(stderr, "%u histories\n", n); return 0;
}
