#include "conn.h"
// any bytes, any read pattern: no memory error, no assertion; every field delivered lies inside the bytes sent
static void feed(const std::string& all, const std::string& what)
{
	g_case = what + " " + esc(all.substr(0, 500)) + " (" + std::to_string(all.size()) + " bytes)"; HttpConnection c; Dev d; int closed = 0; size_t served = 0;
	QObject::connect(&c, &HttpConnection::closed, [&](HttpConnection*) { ++closed; d.dead = true; });
	QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection*) {
		++served; std::string u; const QByteArray* f[] = { &c.requestMethod(), &c.requestUri(), &c.requestPath(), &c.requestQueryString(), &c.requestFragment(), &c.requestHttpVersion(), &c.requestContent() };
		for (auto x : f) { std::string s = S(*x); CHECK(s.empty() || all.find(s) != std::string::npos, "field %s is not part of the input", esc(s).c_str()); }
		for (int i = 0; i < c.requestHeaders().size(); ++i) for (int k = 0; k < 2; ++k) { std::string s = S(k ? c.requestHeaders().at(i).second : c.requestHeaders().at(i).first); CHECK(s.empty() || all.find(s) != std::string::npos, "header %s is not part of the input", esc(s).c_str()); }
		c.requestUriDecoded(); c.requestPathDecoded(); c.requestQueryStringDecoded(); c.requestFragmentDecoded(); c.requestParams(); c.requestParamValue("a"); c.requestHeaderValue("host");
		c.writeResponse(200, HttpHeaderCollection(), rnd(2) ? QByteArray("x") : QByteArray());
	});
	d.in = cut(all); if (rnd(3) == 0) d.shortMax = 1 + rnd(20); c.initialize(&d, &d);
	for (int i = 0; i < 200000 && !d.in.empty() && !closed; ++i) { if (rnd(8) == 0) d.failNext = 1; d.pump(); d.failNext = 0; if (rnd(50) == 0) QCoreApplication::processEvents(); }
	CHECK(d.readsAfterClose == 0 && d.writesAfterClose == 0, "device used after close"); if (!closed) c.close();
}
int main(int ac, char** av)
{
	QCoreApplication app(ac, av); init();
	for (int extra = -40; extra < 40; ++extra) { std::string h = "GET / HTTP/1.1\r\nX: "; h += std::string(size_t(32768 + extra) - h.size() - 4, 'x') + "\r\n\r\n"; feed(h, "long head"); }
	for (int n = 0; n < 70; ++n) { std::string h = "GET / HTTP/1.1\r\n"; for (int i = 0; i < n; ++i) h += "H" + std::to_string(i) + ": " + std::to_string(i) + "\r\n"; feed(h + "\r\n", "many headers"); }
	for (int n = 0; n < 3000; n += 1 + n / 7) feed("POST / HTTP/1.1\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n" + std::string(size_t(n), 'c') + "GET /2 HTTP/1.1\r\n\r\n", "content");
	while (timeLeft())
	{
		std::string s; int n = 1 + int(rnd(4)); for (int i = 0; i < n; ++i) s += mkReq(true).raw;
		for (int m = rnd(4) ? int(rnd(6)) : 0; m > 0 && !s.empty(); --m) { size_t p = rnd(unsigned(s.size())); switch (rnd(6)) { case 0: s[p] = char(rnd(256)); break; case 1: s.erase(p, 1 + rnd(5)); break; case 2: s.insert(p, std::string(1 + rnd(4), char(rnd(256)))); break; case 3: s.insert(p, "\r\n"); break; case 4: s.insert(p, PICK(" ", ":", "#", "?", "%", "\t", "/", "Content-Length: 3\r\n", "HTTP/1.1", "\r\n\r\n")); break; case 5: s = s.substr(0, p); break; } }
		feed(s, "mutated"); if (rnd(4) == 0) { std::string b; for (int i = rnd(300); i > 0; --i) b += char(rnd(256)); feed(b, "random"); }
		if (rnd(3) == 0) scenario(true, true);
	}
	return 0;
}
