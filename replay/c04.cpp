#include "conn.h"
static void accepted(const std::string& head, long long cl, bool expect100)
{
	g_case = "must be accepted: " + esc(head.substr(0, 200)) + " of " + std::to_string(head.size()) + " bytes"; HttpConnection c; Dev d; int ready = 0; QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection*) { ++ready; });
	d.in = cut(head); c.initialize(&d, &d); for (int i = 0; i < 40000 && !d.in.empty(); ++i) d.pump();
	std::string w = expect100 && cl > 0 ? "HTTP/1.1 100 Continue\r\n\r\n" : ""; CHECK(d.out == w, "answer %s expected %s", esc(d.out).c_str(), esc(w).c_str());
	CHECK(c.state() == (cl > 0 ? HttpConnection::ReceivingContent : HttpConnection::SendingHeaders) && ready == (cl > 0 ? 0 : 1), "state %d, announced %d", c.state(), ready);
	if (cl > 0 && cl < 5000) { std::string b = std::string(size_t(cl), 'b'); d.in.push_back(b.substr(0, size_t(cl - 1))); if (cl > 1) d.pump(); else d.in.clear(); CHECK(ready == 0, "announced before its content arrived"); d.in.clear(); d.in.push_back("b"); d.pump(); CHECK(ready == 1 && S(c.requestContent()) == b && d.out == w, "announced %d", ready); }
	c.close();
}
int main(int ac, char** av)
{
	QCoreApplication app(ac, av); init();
	const char* lens[] = { "-1", "-2147483648", "-5" }; for (auto l : lens) for (int k = 0; k < 5; ++k) refused("POST / HTTP/1.1\r\n" + rcase("Content-Length") + ": " + l + "\r\n\r\n", 400, "negative content length");
	const char* big[] = { "134217729", "2147483647", "2147483648", "4294967296", "4294967297", "99999999999999999999", "abc", "", "1a", "0x10", "1.5", "1,1", "--1", "-", "+", "1 2" }; for (auto l : big) for (int k = 0; k < 5; ++k) refused("POST / HTTP/1.1\r\nHost: a\r\n" + rcase("Content-Length") + ": " + l + "\r\nX: y\r\n\r\n", 413, "unacceptable content length");
	for (auto l : { "0", "1", "2", "17", "1000", "4096", "134217727", "134217728", "007" }) for (int e = 0; e < 3; ++e) for (int k = 0; k < 2; ++k) accepted(std::string("POST / HTTP/1.") + (rnd(2) ? "1" : "0") + "\r\n" + rcase("Content-Length") + ": " + l + "\r\n" + (e ? rcase("Expect") + ": " + (e == 1 ? "100-continue" : rcase("100-continue")) + "\r\n" : "") + "\r\n", atoll(l), e);
	const char* bad[] = { "\r\n\r\n", "GET\r\n\r\n", "GET /\r\n\r\n", "GET / HTTP/1.1\n\n", "get / HTTP/1.1\r\n\r\n", "GET / HTTP/x.1\r\n\r\n", "GET / HTTQ/1.1\r\n\r\n", "GET / HTTP/1.1\r\nNoColon\r\n\r\n", "GET / HTTP/1.1\r\nA b: c\r\n\r\n", "GET / HTTP/1.1\r\n: v\r\n\r\n", "GET  / HTTP/1.1\r\n\r\n", "GET /a b HTTP/1.1\r\n\r\n", "GET / HTTP/1.1 \r\n\r\n", "ABCDEFGHIJKLMNOPQRSTUVWXYZ / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nA: b\rc\r\n\r\n", "\x16\x03\x01", "GET / HTTP/1.1\r\nA: b\r\n\rx", "GET / HTTP/1\r\n\r\n", "GET / HTTP/.1\r\n\r\n", "GET ? HTTP/1.1\r\n\r\n" };
	for (auto b : bad) for (int k = 0; k < 6; ++k) refused(b, 400, "malformed head");
	for (int k = 0; k < 6; ++k) refused(std::string("GET / HTTP/1.1\r\nX\0: y\r\n\r\n", 26), 400, "malformed head");
	for (int extra : { 1, 2, 3, 17, 1000, 32768, 100000 }) for (int k = 0; k < 4; ++k)       // too long heads, complete or not
	{
		std::string h = "GET / HTTP/1.1\r\nX: "; size_t want = size_t(32768 + extra); bool whole = rnd(2); h += std::string(want - h.size() - (whole ? 4 : 0), 'x'); if (whole) h += "\r\n\r\n"; refused(h, 400, "head of " + std::to_string(want) + " bytes", k);
	}
	for (size_t n : { 100u, 4095u, 4096u, 8192u, 32766u, 32767u }) for (int k = 0; k < 4; ++k) { std::string h = "GET / HTTP/1.1\r\nX: "; h += std::string(n - h.size() - 4, 'x') + "\r\n\r\n"; accepted(h, 0, false); }
	// refused requests after served ones, and a bad second request
	while (timeLeft())
	{
		Req a = mkReq(true); a.version = "HTTP/1.1"; a.method = "GET"; a.headers.clear(); a.hasF = false; a.fragment.clear(); a.content = rnd(2) ? "hello" : ""; a.raw = "GET " + a.uri() + " HTTP/1.1\r\n" + (a.content.empty() ? "" : "Content-Length: 5\r\n") + "\r\n" + a.content; if (!a.content.empty()) a.headers.push_back({ "Content-Length", "5" });
		const char* second[] = { "BAD\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 999999999\r\n\r\n", "GET / HTTP/1.1\r\nA;\r\n\r\n" }; static const int code[] = { 400, 400, 413, 400 }; int s = int(rnd(4));
		g_case = "second request refused: " + esc(a.raw + second[s]); HttpConnection c; Dev d; int ready = 0, closed = 0; QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection*) { ++ready; checkRequest(&c, a); c.writeResponse(200, HttpHeaderCollection(), "ok"); }); QObject::connect(&c, &HttpConnection::closed, [&](HttpConnection*) { ++closed; });
		d.in = cut(a.raw + second[s] + (rnd(2) ? "GET / HTTP/1.1\r\n\r\n" : "")); c.initialize(&d, &d); for (int i = 0; i < 9000 && !d.in.empty() && !closed; ++i) d.pump();
		std::string w = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nContent-Type: text/plain\r\n\r\nokHTTP/1.0 " + std::to_string(code[s]) + " " + reason(code[s]) + "\r\nConnection: close\r\n\r\n"; CHECK(ready == 1 && closed == 1 && d.out == w, "announced %d closed %d answer %s", ready, closed, esc(d.out).c_str());
		scenario(true, false);
	}
	return 0;
}
