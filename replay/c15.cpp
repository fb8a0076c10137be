// C15: a request goes to the first route whose pattern and method match, its parameters bound to the text they matched; 405/404/not handled otherwise.
#include "handler.h"
#include "HttpHandlerSimpleRouter.h"
typedef Pillow::HttpHandlerSimpleRouter Router;
static std::vector<int> g_hits; static std::function<void(int, HttpConnection*)> g_onHit;
struct Rec : Pillow::HttpHandler { int id; Rec(int i, QObject* p) : Pillow::HttpHandler(p), id(i) {} bool handleRequest(Pillow::HttpConnection* c) { g_hits.push_back(id); g_onHit(id, c); return true; } };
class Target : public QObject { Q_OBJECT public: int id; Target(int i, QObject* p) : QObject(p), id(i) {} public slots: void hit(Pillow::HttpConnection* c) { g_hits.push_back(id); g_onHit(id, c); } };
struct Seg { int k; QString t; };                                   // 0 literal text, 1 ":name", 2 "*name"
struct Rt { std::string method; std::vector<Seg> segs; int kind; int status; std::string content, hname, hvalue; bool gone; QString pattern() const { QString p; for (auto& s : segs) p += (s.k == 1 ? ":" : s.k == 2 ? "*" : "") + s.t; return p; } };
static bool word(QChar c) { return c.isLetterOrNumber() || c.isMark() || c == '_' || c == '-'; }
static bool matches(const std::vector<Seg>& g, const QString& p)    // set of reachable positions, segment by segment
{
	std::vector<char> at(p.size() + 1, 0); at[0] = 1;
	for (auto& s : g)
	{
		std::vector<char> nx(p.size() + 1, 0);
		for (int i = 0; i <= p.size(); ++i) if (at[i]) { if (s.k == 0) { if (p.mid(i, s.t.size()) == s.t) nx[i + s.t.size()] = 1; } else if (s.k == 1) for (int j = i; j < p.size() && word(p[j]); ++j) nx[j + 1] = 1; else for (int j = i; j <= p.size(); ++j) nx[j] = 1; }
		at = nx;
	}
	return at[p.size()];
}
static const char* LIT[] = { "/", "/a", "/users/", "/b-c", "-", "/~", "/x y", "/%", ",", "/\xc3\xa9t\xc3\xa9", "/0" };
static const char* NAMES[] = { "id", "name", "rest", "Id", "x1", "_method", "caf\xc3\xa9" };
static std::vector<Seg> pattern()
{
	std::vector<Seg> r; int n = 1 + rnd(5); bool prevTok = false; if (rnd(12) == 0) n = 0;
	for (int i = 0; i < n; ++i) { bool tok = i > 0 && rnd(2); if (tok) r.push_back({ rnd(3) ? 1 : 2, QString::fromUtf8(NAMES[rnd(7)]) }); else { const char* l = LIT[rnd(11)]; (void)prevTok; r.push_back({ 0, QString::fromUtf8(l) }); } prevTok = tok; }
	return r;
}
static std::string pathFor(const std::vector<Seg>& g)
{
	QString p; for (auto& s : g) if (s.k == 0) p += s.t; else if (s.k == 1) { static const char* v[] = { "1", "abc", "x_y-z", "\xc3\xa9", "-", "_", "A9", "a b", "" }; p += QString::fromUtf8(v[rnd(rnd(4) ? 7 : 9)]); } else { static const char* v[] = { "", "/", "a/b/c", "x\ny", "::", "*", "\xe2\x82\xac", "/a", "(.*)" }; p += QString::fromUtf8(v[rnd(9)]); }
	if (rnd(8) == 0) p += QChar("/a-\n"[rnd(4)]); if (rnd(12) == 0) p.chop(1); if (!p.startsWith('/')) p = "/" + p; QByteArray u = p.toUtf8(); return std::string(u.constData(), u.size());
}
static void round()
{
	QObject owner; Router r; std::vector<Rt> rts; int n = 1 + rnd(6); g_case = "routes:"; std::vector<QObject*> victims;
	bool r405 = rnd(2), r404 = rnd(2), mp = rnd(2); if (rnd(6)) { r.setMethodMismatchAction(r405 ? Router::Return4xxResponse : Router::Passthrough); r.setUnmatchedRequestAction(r404 ? Router::Return4xxResponse : Router::Passthrough); r.setAcceptsMethodParam(mp); } else r405 = r404 = mp = false;
	CHECK(r.methodMismatchAction() == (r405 ? Router::Return4xxResponse : Router::Passthrough) && r.unmatchedRequestAction() == (r404 ? Router::Return4xxResponse : Router::Passthrough) && r.acceptsMethodParam() == mp, "configuration is not reported back");
	if (rnd(5) == 0) { r.addRoute("GET", "/", (QObject*)0, "hit"); r.addRoute("/", &owner, ""); r.addRoute("/", &owner, (const char*)0); }
	static const char* WIRE[] = { "GET", "POST", "PUT", "DELETE", "GE", "GETS" };
	static const char* METHODS[] = { "", "GET", "POST", "get", "PuT", "DELETE", "GE", "GETS", "" };
	for (int i = 0; i < n; ++i)
	{
		Rt t; t.method = METHODS[rnd(9)]; t.segs = i && rnd(4) == 0 ? rts[rnd(i)].segs : pattern(); t.kind = rnd(6); t.gone = false; QByteArray m = Q(t.method); QString p = t.pattern(); t.status = 200;
		g_case += "\n    " + (t.method.empty() ? "any" : t.method) + " " + esc(p) + " kind " + std::to_string(t.kind);
		if (t.kind == 0) { auto* h = new Rec(i, &owner); r.addRoute(m, p, h); if (rnd(15) == 0) { victims.push_back(h); t.gone = true; } }
		else if (t.kind == 1) { auto* o = new Target(i, &owner); r.addRoute(m, p, o, SLOT(hit(Pillow::HttpConnection*))); if (rnd(15) == 0) { victims.push_back(o); t.gone = true; } }
		else if (t.kind == 2) { auto* o = new Target(i, &owner); r.addRoute(m, p, o, "hit"); if (rnd(15) == 0) { victims.push_back(o); t.gone = true; } }
		else if (t.kind == 3) r.addRoute(m, p, [i](HttpConnection* c) { g_hits.push_back(i); g_onHit(i, c); });
		else { t.status = rnd(2) ? 200 : 202; t.content = "static " + std::to_string(i); t.hname = "X-R"; t.hvalue = std::to_string(i); Pillow::HttpHeaderCollection h; h << Pillow::HttpHeader(Q(t.hname), Q(t.hvalue)); r.addRoute(m, p, t.status, h, Q(t.content)); }
		rts.push_back(t);
	}
	for (auto* v : victims) delete v;
	std::string base = g_case;
	for (int q = 0; q < 6; ++q)
	{
		std::string path = pathFor(rts[rnd(n)].segs), query, method = rnd(2) ? WIRE[rnd(6)] : "GET"; if (rnd(6) == 0) method = "HEAD";
		if (rnd(3) == 0) query = rnd(2) ? "_method=" + std::string(METHODS[rnd(8)]) : "ID=q&x=1&NAME=old&_METHOD=put"; else if (rnd(3) == 0) query = "a=b&rest=r0";
		std::string wire = "/" + encodeAll(path.substr(1)); g_case = base + "\n  request " + method + " " + esc(wire) + "?" + query + " 405:" + std::to_string(r405) + " 404:" + std::to_string(r404) + " _method:" + std::to_string(mp);
		QString dp = QString::fromUtf8(path.data(), int(path.size())); auto ps = params(query); std::string eff = method; if (mp) for (auto& x : ps) if (ieq(S(x.first.toUtf8()), "_method")) { if (!x.second.isEmpty()) eff = S(x.second.toLatin1()); break; }
		int want = -1; std::vector<int> pm; for (int i = 0; i < n && want < 0; ++i) if (matches(rts[i].segs, dp)) { pm.push_back(i); if (rts[i].method.empty() || ieq(rts[i].method, eff)) want = i; }
		auto before = ps;
		auto bound = [&](HttpConnection* c, const Rt& t) {
			std::vector<QString> caps; auto g = c->requestParams(); std::vector<std::pair<QString, QString> > names; for (auto& s : t.segs) if (s.k) { bool dup = false; for (auto& x : names) if (x.first.compare(s.t, Qt::CaseInsensitive) == 0) { x.first = s.t; dup = true; } if (!dup) names.push_back({ s.t, QString() }); }
			bool unique = true; int tokens = 0; for (auto& s : t.segs) tokens += s.k != 0; unique = tokens == int(names.size());
			size_t at = 0; std::vector<std::pair<QString, QString> > w = before; for (auto& x : names) { bool f = false; for (auto& y : w) if (y.first.compare(x.first, Qt::CaseInsensitive) == 0) { y = { x.first, QString("\x01") }; f = true; break; } if (!f) w.push_back({ x.first, QString("\x01") }); } (void)at;
			CHECK(int(w.size()) == g.size(), "the request has %d parameters, expected %d", g.size(), int(w.size()));
			for (int i = 0; i < g.size(); ++i) { CHECK(g[i].first == w[i].first, "parameter %d is named %s, expected %s", i, esc(g[i].first).c_str(), esc(w[i].first).c_str()); if (w[i].second != QString("\x01")) CHECK(g[i].second == w[i].second, "parameter %s changed to %s", esc(g[i].first).c_str(), esc(g[i].second).c_str()); }
			if (unique) { QString back; for (auto& s : t.segs) if (s.k == 0) back += s.t; else { QString v; for (auto& x : g) if (x.first == s.t) { v = x.second; break; } if (s.k == 1) { CHECK(!v.isEmpty(), "parameter %s is empty", esc(s.t).c_str()); for (QChar ch : v) CHECK(word(ch), "parameter %s is %s", esc(s.t).c_str(), esc(v).c_str()); } back += v; } CHECK(back == dp, "the parameters rebuild the path %s", esc(back).c_str()); }
		};
		HttpConnection c; Dev d; int ready = 0; bool handled = false; g_hits.clear();
		g_onHit = [&](int id, HttpConnection* rc) { CHECK(rc == &c, "route got another connection"); bound(rc, rts[id]); rc->writeResponse(200, HttpHeaderCollection(), "hit " + QByteArray::number(id)); };
		QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection* rc) { ++ready; handled = r.handleRequest(rc); if (want < 0 || !rts[want].gone) { if (!handled) { CHECK(rc->state() == HttpConnection::SendingHeaders, "not handled but state is %d", rc->state()); auto g = rc->requestParams(); CHECK(g.size() == int(before.size()), "parameters added to a request that was not handled"); for (int i = 0; i < g.size(); ++i) CHECK(g[i].first == before[i].first && g[i].second == before[i].second, "parameters changed on a request that was not handled"); } } });
		d.in.push_back(method + " " + wire + (query.empty() ? "" : "?" + query) + " HTTP/1.1\r\n\r\n"); c.initialize(&d, &d); d.pump(); CHECK(ready == 1, "not announced"); std::string out = d.out; if (c.state() != HttpConnection::Closed) c.close();
		bool hd = method == "HEAD";
		auto resp = [&](const std::string& status, const std::string& extra, const std::string& body, bool ct) { std::string o = "HTTP/1.1 " + status + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n" + (ct ? "Content-Type: text/plain\r\n" : "") + extra + "\r\n"; if (!hd) o += body; return o; };
		if (want >= 0 && rts[want].gone) { CHECK(g_hits.empty() && out.empty(), "another route took the request of a route whose target is gone"); continue; }
		if (want >= 0)
		{
			CHECK(handled, "not handled although route %d matches", want); const Rt& t = rts[want];
			if (t.kind < 4) { CHECK(g_hits.size() == 1 && g_hits[0] == want, "went to route %d (%d calls), expected %d", g_hits.empty() ? -1 : g_hits[0], int(g_hits.size()), want); }
			else { CHECK(g_hits.empty(), "went to route %d, expected %d", g_hits[0], want); std::string st = t.status == 200 ? "200 OK" : out.substr(9, out.find("\r\n") - 9); CHECK(st.substr(0, 3) == std::to_string(t.status), "status line %s", st.c_str()); size_t h = out.find("X-R: " + t.hvalue + "\r\n"), e = out.find("\r\n\r\n"); CHECK(h != std::string::npos && e != std::string::npos && h < e && out.substr(e + 4) == (hd ? "" : t.content), "answer %s expected that of static route %d", esc(out).c_str(), want); }
		}
		else if (!pm.empty())
		{
			CHECK(handled == r405 && g_hits.empty(), "path matches but no method: handled %d, %d calls", handled, int(g_hits.size()));
			std::string al; for (size_t i = 0; i < pm.size(); ++i) al += (i ? ", " : "") + rts[pm[i]].method; if (r405) { std::string w = "HTTP/1.1 405 Method Not Allowed\r\n"; CHECK(out.substr(0, w.size()) == w && out.find("\r\nAllow: " + al + "\r\n") != std::string::npos, "answer %s expected Allow: %s", esc(out).c_str(), al.c_str()); } else CHECK(out.empty(), "answered %s", esc(out).c_str());
		}
		else { CHECK(handled == r404 && g_hits.empty(), "no path matches: handled %d, %d calls", handled, int(g_hits.size())); if (r404) CHECK(out.substr(0, 24) == "HTTP/1.1 404 Not Found\r\n", "answer %s", esc(out).c_str()); else CHECK(out.empty(), "answered %s", esc(out).c_str()); }
		(void)resp;
	}
}
int main(int argc, char** argv) { init(); QCoreApplication app(argc, argv); while (timeLeft()) round(); return 0; }
#include "c15.moc"
