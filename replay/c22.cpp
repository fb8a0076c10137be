// C22: a reply of the network access manager mirrors the client's response; requests go out as asked; clients are pooled while idle.
#include "client.h"
#include <QtNetwork/QNetworkAccessManager>
#include <QtNetwork/QNetworkReply>
#include <QtNetwork/QNetworkRequest>
#include <QtNetwork/QNetworkCookieJar>
#include <QtNetwork/QNetworkCookie>
#include <QtCore/QBuffer>
#include <QtCore/QPointer>
struct Plan { std::vector<std::string> pieces; bool close; };
struct Many : QTcpServer       // answers every request by the plan of its path
{
	struct C { QTcpSocket* s; std::string in; int id; bool busy; };
	std::map<std::string, Plan> plans; std::map<std::string, std::vector<Seen>> seen; std::vector<std::shared_ptr<C>> conns; int made = 0;
	Many() { connect(this, &QTcpServer::newConnection, [this] { while (hasPendingConnections()) add(nextPendingConnection()); }); if (!listen(QHostAddress::LocalHost)) { printf("no loopback\n"); exit(3); } }
	void add(QTcpSocket* s) { auto c = std::make_shared<C>(); c->s = s; c->id = made++; c->busy = false; conns.push_back(c); s->setSocketOption(QAbstractSocket::LowDelayOption, 1); connect(s, &QTcpSocket::readyRead, [this, c] { c->in += S(c->s->readAll()); pump(c); }); connect(s, &QTcpSocket::disconnected, [this, c] { c->s->deleteLater(); c->s = 0; }); }
	void pump(std::shared_ptr<C> c)
	{
		for (;;)
		{
			size_t e = c->in.find("\r\n\r\n"); if (e == std::string::npos) return; size_t n = e + 4, l = 0, p = c->in.rfind("Content-Length: ", e); if (p != std::string::npos) l = strtoul(c->in.c_str() + p + 16, 0, 10);
			if (c->in.size() < n + l) return; std::string raw = c->in.substr(0, n + l); c->in.erase(0, n + l); size_t a = raw.find(' '), b = raw.find_first_of(" ?", a + 1); std::string path = raw.substr(a + 1, b - a - 1);
			CHECK(!c->busy, "a request on a connection that still answers another one: %s", esc(raw.substr(0, 200)).c_str()); seen[path].push_back({raw, c->id}); CHECK(plans.count(path), "a request nobody made: %s", esc(raw.substr(0, 200)).c_str()); if (seen[path].size() == 1) { c->busy = true; send(c, plans[path], 0); }
		}
	}
	void send(std::shared_ptr<C> c, Plan s, size_t i)
	{
		if (!c->s) return; if (i == s.pieces.size()) { if (s.close) c->s->disconnectFromHost(); return; }
		if (i + 1 == s.pieces.size() && !s.close) c->busy = false;
		c->s->write(Q(s.pieces[i])); if (c->s) c->s->flush(); if (!c->s) return; if (i + 1 == s.pieces.size() && s.close && rnd(2)) { c->s->disconnectFromHost(); return; }
		QTimer::singleShot(rnd(3) ? 0 : 1, this, [this, c, s, i] { send(c, s, i + 1); });
	}
};
static bool same(const std::string& a, const char* b) { return Q(a).toLower() == b; }
static void extra(Answer& a, const std::string& n, const std::string& v) { size_t e = a.head.size() - 2; a.raw.insert(e, n + ": " + v + "\r\n"); a.head.insert(e, n + ": " + v + "\r\n"); a.headers.push_back({n, v}); }
struct Job
{
	enum Fate { Good, Cut, Abort, Refused, Bad } fate; Answer a; std::string path, method, body, got; QPointer<QNetworkReply> r; int fin = 0, err = 0, meta = 0, abortAt = -1, ev = 0; bool aborted = false, loose = false; QNetworkReply::NetworkError sig = QNetworkReply::NoError; Hdrs sent; std::string cookie; QUrl url; std::vector<std::unique_ptr<QBuffer>> dev;
	void step() { if (ev++ == abortAt) { aborted = true; r->abort(); } }
	void read()
	{
		for (int k = 1 + rnd(4); k > 0; --k)
		{
			qint64 have = r->bytesAvailable(); unsigned how = rnd(4); if (how == 0) return; qint64 want = how == 1 ? have : how == 2 ? qint64(rnd(20)) : qint64(rnd(rnd(3) ? 6000 : 60000)); std::unique_ptr<char[]> b(new char[size_t(want) + 1]); qint64 n = r->read(b.get(), want);
			CHECK(n <= want && n <= have, "read(%lld) returned %lld with %lld bytes available", want, n, have); if (have > 0 && want > 0) CHECK(n == std::min(have, want), "read(%lld) returned %lld with %lld bytes available", want, n, have); if (n > 0) { got.append(b.get(), size_t(n)); CHECK(r->bytesAvailable() == have - n, "%lld bytes available after reading %lld of %lld", r->bytesAvailable(), n, have); }
			CHECK(loose || a.body.compare(0, got.size(), got) == 0, "content so far %s, expected a beginning of %s", esc(got.substr(0, 100)).c_str(), esc(a.body.substr(0, 100)).c_str());
		}
	}
	void heads()
	{
		CHECK(r->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() == a.status, "status %d, expected %d", r->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt(), a.status);
		std::vector<std::pair<QByteArray, QByteArray>> want; QList<QNetworkCookie> cookies; QUrl loc;
		for (auto& h : a.headers) { if (same(h.first, "set-cookie")) { cookies += QNetworkCookie::parseCookies(Q(h.second)); continue; } if (same(h.first, "location")) { loc = QUrl::fromEncoded(Q(h.second)); } bool f = false; for (auto& w : want) if (w.first.toLower() == Q(h.first).toLower()) { w.second += ", " + Q(h.second); f = true; } if (!f) want.push_back({Q(h.first), Q(h.second)}); }
		for (auto& w : want) { CHECK(r->hasRawHeader(w.first), "header %s is missing", esc(w.first).c_str()); QByteArray v = r->rawHeader(w.first); CHECK(v == w.second, "header %s: %s, expected %s", esc(w.first).c_str(), esc(v).c_str(), esc(w.second).c_str()); }
		for (auto& p : r->rawHeaderPairs()) { bool f = p.first.toLower() == "set-cookie"; for (auto& w : want) f = f || w.first.toLower() == p.first.toLower(); CHECK(f, "header %s was not sent", esc(p.first).c_str()); }
		CHECK(r->header(QNetworkRequest::SetCookieHeader).value<QList<QNetworkCookie>>() == cookies, "%d cookies, expected %d", r->header(QNetworkRequest::SetCookieHeader).value<QList<QNetworkCookie>>().size(), cookies.size());
		CHECK(r->attribute(QNetworkRequest::RedirectionTargetAttribute).toUrl() == loc, "redirect target %s, expected %s", r->attribute(QNetworkRequest::RedirectionTargetAttribute).toUrl().toEncoded().constData(), loc.toEncoded().constData());
	}
};
static void history()
{
	static Many* s = new Many; static int serial = 0; static QTcpServer* dead = 0; static quint16 deadPort = 0; if (!dead) { dead = new QTcpServer; dead->listen(QHostAddress::LocalHost); deadPort = dead->serverPort(); dead->close(); }
	std::unique_ptr<NetworkAccessManager> nam(new NetworkAccessManager); g_case = "manager:"; s->seen.clear(); s->plans.clear(); int rounds = 1 + rnd(4); size_t most = 0; std::map<std::string, size_t> mostOf; std::map<std::string, std::string> jar;
	if (rnd(6) == 0) { QNetworkReply* r = nam->get(QNetworkRequest(QUrl("data:text/plain,hello"))); CHECK(!r->inherits("Pillow::NetworkReply"), "another scheme is not left to the base class"); spin([&] { return r->isFinished(); }); CHECK(r->readAll() == "hello", "data: url"); delete r; }
	for (int round = 0; round < rounds && timeLeft(); ++round)
	{
		std::vector<std::shared_ptr<Job>> jobs; int n = 1 + rnd(3); std::map<std::string, size_t> now;
		for (int i = 0; i < n; ++i)
		{
			auto j = std::make_shared<Job>(); Job* J = j.get(); static const char* ms[] = { "HEAD", "GET", "GET", "PUT", "POST", "DELETE", "PATCH", "PROPFIND" }; unsigned m = rnd(8); J->method = ms[m]; J->fate = rnd(6) ? Job::Good : Job::Fate(1 + rnd(4)); J->path = "/r" + std::to_string(++serial); bool head = m == 0; J->a = answer(head, true, true);
			for (unsigned k = rnd(3); k > 0 && !J->a.headers.empty(); --k) { std::string nm = J->a.headers[rnd(unsigned(J->a.headers.size()))].first; if (same(nm, "content-length") || same(nm, "transfer-encoding") || same(nm, "connection")) continue; if (rnd(2)) nm = S(Q(nm).toUpper()); extra(J->a, nm, rnd(4) ? tok(1 + rnd(9)) : ""); }
			if (rnd(4) == 0) for (unsigned k = 1 + rnd(3); k > 0; --k) extra(J->a, rnd(2) ? "Set-Cookie" : "set-cookie", "c" + std::to_string(rnd(3)) + "=" + tok(4) + (rnd(2) ? "; path=/" : ""));
			if (rnd(4) == 0 || J->a.status / 100 == 3) extra(J->a, rnd(2) ? "Location" : "LOCATION", rnd(2) ? "http://127.0.0.1/x?y=" + tok(3) : rnd(2) ? "/rel/" + tok(4) : "http://h/caf\xc3\xa9" + tok(2));
			std::string raw = J->a.raw; bool cut = false; if (J->fate == Job::Cut) { if (J->a.byClose) J->fate = Job::Good; else { raw = raw.substr(0, rnd(unsigned(raw.size()))); cut = true; } } if (J->fate == Job::Bad) { raw = "HTPP/1.1 200 OK\r\n\r\n"; } if (J->fate == Job::Abort) J->abortAt = int(rnd(4));
			bool user = rnd(5) == 0; QUrl u; u.setScheme("http"); u.setHost("127.0.0.1"); u.setPort(J->fate == Job::Refused ? deadPort : s->serverPort()); if (user) u.setUserName("me"); u.setPath(QString::fromLatin1(J->path.c_str())); if (rnd(3) == 0) u.setQuery(QString::fromLatin1(("q=" + tok(5)).c_str())); J->url = u; s->plans[J->path] = {pieces(raw), cut || J->a.byClose || !J->a.keepAlive};
			QNetworkRequest q(u); for (auto& h : someHeaders(false)) if (!h.second.empty()) { bool dup = false; for (auto& x : J->sent) dup = dup || Q(x.first).toLower() == Q(h.first).toLower(); if (!dup) { J->sent.push_back(h); q.setRawHeader(Q(h.first), Q(h.second)); } }
			QList<QNetworkCookie> cs = nam->cookieJar()->cookiesForUrl(u); QByteArray cv; for (int k = 0; k < cs.size(); ++k) { if (k) cv += "; "; cv += cs.at(k).toRawForm(QNetworkCookie::NameAndValueOnly); } J->cookie = S(cv);
			if (m == 3 || m == 4 || m >= 6) J->body = rnd(60) ? data(size()) : data(1100000 + rnd(900000));
			g_case += " [" + J->method + " " + J->path + " fate " + std::to_string(int(J->fate)) + (J->a.byClose ? " by-close " : " ") + esc(raw.substr(0, 250)) + "]";
			QNetworkReply* r = 0; QByteArray b = Q(J->body); QBuffer* dev = new QBuffer; dev->setData(b); dev->open(QIODevice::ReadOnly); J->dev.emplace_back(dev);
			if (m == 0) r = nam->head(q); else if (m <= 2) r = nam->get(q); else if (m == 3) r = rnd(2) ? nam->put(q, dev) : nam->put(q, b); else if (m == 4) r = rnd(2) ? nam->post(q, dev) : nam->post(q, b); else if (m == 5) r = nam->deleteResource(q); else r = nam->sendCustomRequest(q, Q(J->method), dev);
			J->r = r; CHECK(r && r->inherits("Pillow::NetworkReply"), "the reply is not the client's"); CHECK(r->url() == u && r->request().url() == u, "url"); CHECK(!r->isFinished(), "finished at once"); static const QNetworkAccessManager::Operation ops[] = { QNetworkAccessManager::HeadOperation, QNetworkAccessManager::GetOperation, QNetworkAccessManager::GetOperation, QNetworkAccessManager::PutOperation, QNetworkAccessManager::PostOperation, QNetworkAccessManager::DeleteOperation, QNetworkAccessManager::CustomOperation, QNetworkAccessManager::CustomOperation }; CHECK(r->operation() == ops[m], "operation %d", int(r->operation()));
			QObject::connect(r, &QNetworkReply::metaDataChanged, [J] { ++J->meta; CHECK(!J->fin, "headers after the end"); if (J->fate != Job::Bad) J->heads(); J->step(); });
			QObject::connect(r, &QNetworkReply::readyRead, [J] { CHECK(!J->fin, "content after the end"); J->read(); J->step(); });
			QObject::connect(r, &QNetworkReply::finished, [J] { ++J->fin; CHECK(J->r->isFinished(), "finished() of an unfinished reply"); });
			QObject::connect(r, static_cast<void (QNetworkReply::*)(QNetworkReply::NetworkError)>(&QNetworkReply::error), [J](QNetworkReply::NetworkError e) { ++J->err; J->sig = e; CHECK(!J->fin, "an error after the end"); });
			jobs.push_back(j); ++now[S(u.authority().toLatin1())]; if (J->abortAt == 3) { J->aborted = true; r->abort(); }
		}
		for (auto& x : now) mostOf[x.first] = std::max(mostOf[x.first], x.second); most = 0; for (auto& x : mostOf) most += x.second;
		spin([&] { for (auto& j : jobs) if (!j->fin) return false; return true; });
		for (auto& j : jobs)
		{
			Job* J = j.get(); CHECK(J->fin == 1, "%s finished %d times", J->path.c_str(), J->fin); QNetworkReply::NetworkError e = J->r->error(), w = QNetworkReply::NoError; bool any = false;
			if (J->aborted) { w = QNetworkReply::OperationCanceledError; } else if (J->fate == Job::Refused) w = QNetworkReply::UnknownNetworkError; else if (J->fate == Job::Bad) w = QNetworkReply::ProtocolUnknownError; else if (J->fate == Job::Cut) w = QNetworkReply::RemoteHostClosedError;
			(void)any; CHECK(e == w, "%s: error() is %d, expected %d", J->path.c_str(), int(e), int(w)); CHECK(J->err == (w != QNetworkReply::NoError) && J->sig == w, "%s: error signal %d times with %d, expected %d", J->path.c_str(), J->err, int(J->sig), int(w));
			if (w == QNetworkReply::NoError) { CHECK(J->meta == 1, "%d head signals", J->meta); J->heads(); J->loose = false; for (int k = rnd(2) ? 0 : 40; k > 0 && J->r->bytesAvailable(); --k) J->read(); J->got += S(J->r->readAll()); CHECK(J->got == J->a.body, "%s: content of %zu bytes, expected %zu: %s, expected %s", J->path.c_str(), J->got.size(), J->a.body.size(), esc(J->got.substr(0, 100)).c_str(), esc(J->a.body.substr(0, 100)).c_str()); char c; CHECK(J->r->read(&c, 1) <= 0, "read past the content"); }
			if (J->fate != Job::Refused && !J->aborted) { auto& v = s->seen[J->path]; CHECK(v.size() == 1, "%s was sent %zu times", J->path.c_str(), v.size()); const std::string& raw = v[0].raw; std::string uri = J->path + (J->url.hasQuery() ? "?" + S(J->url.query(QUrl::FullyEncoded).toLatin1()) : ""); CHECK(raw.substr(0, raw.find("\r\n")) == J->method + " " + uri + " HTTP/1.1", "%s, expected %s %s", esc(raw.substr(0, raw.find("\r\n"))).c_str(), J->method.c_str(), uri.c_str()); size_t e = raw.find("\r\n\r\n"); CHECK(raw.substr(e + 4) == J->body, "data of %zu bytes, expected %zu", raw.size() - e - 4, J->body.size()); size_t p = 0; std::string hd = raw.substr(0, e + 2); for (auto& h : J->sent) { std::string l = "\r\n" + h.first + ": " + h.second + "\r\n"; size_t x = hd.find(l, p); CHECK(x != std::string::npos, "header %s was not sent in order: %s", esc(h.first).c_str(), esc(hd).c_str()); p = x; } size_t ck = hd.find("\r\nCookie: "); if (J->cookie.empty()) CHECK(ck == std::string::npos, "cookies sent: %s", esc(hd).c_str()); else CHECK(ck != std::string::npos && hd.substr(ck + 10, hd.find("\r\n", ck + 10) - ck - 10) == J->cookie, "cookies %s, expected %s", esc(hd).c_str(), esc(J->cookie).c_str()); }
			delete J->r.data();
		}
		size_t clients = nam->findChildren<HttpClient*>().size(); CHECK(clients <= most, "%zu clients for at most %zu requests at a time per authority", clients, most);
	}
}
int main(int argc, char** argv) { init(); g_big = 12; QCoreApplication app(argc, argv); int n = 0; while (timeLeft()) { history(); ++n; } printf("REPLAY-OK %d manager histories\n", n); return 0; }
