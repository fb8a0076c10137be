// C16: a stack offers a request to its children in order up to the first that takes it; fixed, not-found and function handlers answer as configured.
#include "handler.h"
static std::vector<std::string> g_trace;
struct Rec : Pillow::HttpHandler { std::string name; int mode; Rec(const std::string& n, int m, QObject* p) : Pillow::HttpHandler(p), name(n), mode(m) {} bool handleRequest(Pillow::HttpConnection* c) { g_trace.push_back(name); if (mode == 2) c->writeResponse(200, HttpHeaderCollection(), "by " + QByteArray(name.c_str())); return mode > 0; } };
static int g_n = 0;
// builds a random stack; returns whether it takes the request, appending the expected trace
static bool fill(Pillow::HttpHandlerStack* s, int depth, std::vector<std::string>& want, std::string& body)
{
	bool taken = false; int n = int(rnd(6)); g_case += "(";
	for (int i = 0; i < n; ++i)
	{
		unsigned k = rnd(10);
		if (k == 0) { new QObject(s); g_case += " object"; }
		else if (k == 1 && depth < 3) { auto* in = new Pillow::HttpHandlerStack(s); std::vector<std::string> w; std::string b; bool t = fill(in, depth + 1, w, b); if (!taken) { want.insert(want.end(), w.begin(), w.end()); if (t) { taken = true; body = b; } } }
		else if (k == 2) { bool has = rnd(2); std::string nm = "fn" + std::to_string(++g_n); if (has) new Pillow::HttpHandlerFunction([nm](HttpConnection* c) { g_trace.push_back(nm); c->writeResponse(200, HttpHeaderCollection(), QByteArray(nm.c_str())); }, s); else new Pillow::HttpHandlerFunction(s); g_case += " " + nm + (has ? "" : "-empty"); if (has && !taken) { taken = true; want.push_back(nm); body = nm; } }
		else if (k == 3) { std::string nm = "fixed" + std::to_string(++g_n); new Pillow::HttpHandlerFixed(200, QByteArray(nm.c_str()), s); g_case += " " + nm; if (!taken) { taken = true; body = nm; } }
		else { int mode = rnd(4) == 0 ? 2 : 0; std::string nm = "h" + std::to_string(++g_n); new Rec(nm, mode, s); g_case += " " + nm + (mode ? "+" : "-"); if (!taken) { want.push_back(nm); if (mode) { taken = true; body = "by " + nm; } } }
	}
	g_case += ")"; return taken;
}
static void run(Pillow::HttpHandler& h, const std::string& uri, bool& handled, std::string& out, const char* method = "GET", const char* version = "HTTP/1.1")
{
	HttpConnection c; Dev d; int ready = 0; QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection* r) { ++ready; handled = h.handleRequest(r); if (!handled) CHECK(r->state() == HttpConnection::SendingHeaders, "not handled but state is %d", r->state()); });
	d.in.push_back(std::string(method) + " " + uri + " " + version + "\r\n\r\n"); c.initialize(&d, &d); d.pump(); CHECK(ready == 1, "not announced"); out = d.out; if (c.state() != HttpConnection::Closed) c.close();
}
static void stack()
{
	g_case = "stack "; g_n = 0; Pillow::HttpHandlerStack s; std::vector<std::string> want; std::string body; bool taken = fill(&s, 0, want, body);
	for (int rep = 0; rep < 2; ++rep)
	{
		g_trace.clear(); bool handled = false; std::string out; run(s, "/x", handled, out);
		std::string a, b; for (auto& x : g_trace) a += x + " "; for (auto& x : want) b += x + " "; CHECK(a == b, "offered to %s, expected %s", a.c_str(), b.c_str()); CHECK(handled == taken, "handled %d expected %d", handled, taken);
		if (taken) CHECK(out.size() >= body.size() + 4 && out.substr(out.size() - body.size() - 4) == "\r\n\r\n" + body, "answer %s expected %s", esc(out).c_str(), body.c_str()); else CHECK(out.empty(), "answered %s", esc(out).c_str());
	}
}
static void fixed()
{
	static const int codes[] = { 200, 404, 304, 500, 100, 999, 0, 418, 206 }; int code = codes[rnd(9)]; std::string data = mkData(); Pillow::HttpHandlerFixed h(code, Q(data)); int ch = 0; QObject::connect(&h, &Pillow::HttpHandlerFixed::changed, [&] { ++ch; });
	g_case = "fixed handler " + std::to_string(code) + " " + esc(data.substr(0, 40));
	for (int i = 0; i < 4; ++i)
	{
		bool head = rnd(4) == 0, old = rnd(3) == 0; Model m; Req r; r.method = head ? "HEAD" : "GET"; r.version = old ? "HTTP/1.0" : "HTTP/1.1"; m.cl = (long long)data.size(); m.headers(r, code, Hdrs()); if (m.st == Model::SendC) m.content(r, data);
		bool handled = false; std::string out; run(h, "/a%20b?c", handled, out, r.method.c_str(), r.version.c_str()); CHECK(handled, "not handled"); CHECK(out == m.out, "answer %s expected %s", esc(out).c_str(), esc(m.out).c_str()); CHECK(h.statusCode() == code && S(h.content()) == data, "configuration lost");
		int before = ch; int nc = rnd(2) ? codes[rnd(9)] : code; bool d1 = nc != code; h.setStatusCode(nc); code = nc; CHECK(ch == before + d1, "changed() after setStatusCode"); std::string nd = rnd(2) ? mkData() : data; before = ch; bool d2 = nd != data; h.setContent(Q(nd)); data = nd; CHECK(ch == before + d2, "changed() after setContent"); g_case += " then " + std::to_string(code) + " " + esc(data.substr(0, 40));
	}
}
static void notFound()
{
	std::string p = "/"; for (int i = rnd(20); i > 0; --i) p += urich(false); if (rnd(4) == 0) p += "%1%2%L1"; for (size_t i = 0; i < p.size(); ++i) if (p[i] == '%' && (i + 2 >= p.size() || !isxdigit(p[i + 1]) || !isxdigit(p[i + 2]))) p[i] = 'p';
	g_case = "not-found handler for " + esc(p); Pillow::HttpHandler404 h; bool handled = false; std::string out; run(h, p + (rnd(2) ? "?q=1" : ""), handled, out); CHECK(handled, "not handled");
	std::string b = "The requested resource '" + p + "' does not exist on this server", w = "HTTP/1.1 404 Not Found\r\nContent-Length: " + std::to_string(b.size()) + "\r\nContent-Type: text/plain\r\n\r\n" + b; CHECK(out == w, "answer %s expected %s", esc(out).c_str(), esc(w).c_str());
}
static void function()
{
	g_case = "function handler"; int n = 0; HttpConnection* seen = 0; Pillow::HttpHandlerFunction h; bool handled = true; std::string out; run(h, "/", handled, out); CHECK(!handled && out.empty(), "handled without a function");
	h.setFunction([&](HttpConnection* c) { ++n; seen = c; if (n == 2) return; c->writeResponse(204); }); for (int i = 1; i <= 3; ++i) { handled = false; run(h, "/", handled, out); CHECK(handled, "not handled"); CHECK(n == i, "called %d times", n); CHECK((i == 2) == out.empty(), "answer"); }
	h.setFunction(std::function<void(HttpConnection*)>()); handled = true; run(h, "/", handled, out); CHECK(!handled && n == 3, "handled after the function was taken away");
	Pillow::HttpHandlerFunction h2([&](HttpConnection* c) { n = 100; c->writeResponse(200, HttpHeaderCollection(), "q"); }); run(h2, "/", handled, out); CHECK(handled && n == 100, "constructor's function");
}
int main(int argc, char** argv) { init(); QCoreApplication app(argc, argv); while (timeLeft()) { stack(); stack(); fixed(); notFound(); function(); } return 0; }
