#include "conn.h"
static void dec(const std::string& s)
{
	g_case = "percent-decode " + esc(s); QByteArray exact(s.data(), int(s.size())); QString w = decoded(s);
	CHECK(ByteArrayHelpers::percentDecode(exact) == w, "percentDecode(QByteArray) gives %s expected %s", esc(ByteArrayHelpers::percentDecode(exact)).c_str(), esc(w).c_str());
	char* p = (char*)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size());
	CHECK(ByteArrayHelpers::percentDecode(p, int(s.size())) == w, "percentDecode(pointer) gives %s expected %s", esc(ByteArrayHelpers::percentDecode(p, int(s.size()))).c_str(), esc(w).c_str());
	int n = ByteArrayHelpers::percentDecodeInPlace(p, int(s.size())); CHECK(n <= int(s.size()) && QString::fromUtf8(p, n) == w, "percentDecodeInPlace"); free(p);
}
static void query(const std::string& q)
{
	g_case = "query " + esc(q); HttpConnection c; Dev d; int n = 0; Req r; r.method = "GET"; r.path = "/a"; r.hasQ = true; r.hasF = false; r.query = q; r.version = "HTTP/1.1"; d.in.push_back("GET /a?" + q + " HTTP/1.1\r\n\r\n");
	QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection*) { ++n; checkRequest(&c, r); c.close(); }); c.initialize(&d, &d); d.pump(); CHECK(n == 1, "not delivered");
}
int main(int ac, char** av)
{
	QCoreApplication app(ac, av); init();
	for (int c = -128; c < 128; ++c) { g_case = "unhex of " + std::to_string(c); int w = hexd(c); CHECK(ByteArrayHelpers::unhex(char(c)) == w, "%d expected %d", ByteArrayHelpers::unhex(char(c)), w); }
	for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += 1) { char t[8] = { 'x', '%', char(a), char(b), 'y', '%', '4', '1' }; dec(std::string(t, 8)); dec(std::string(t, 4)); }
	const char* s[] = { "", "%", "%4", "%41", "%%41", "a%", "a%2", "%25%32%35", "%C3%A9", "%u00", "%00x", "a+b" }; for (auto x : s) dec(x);
	for (int n : { 1, 100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000 }) for (int k = 0; k < 6; ++k) { std::string x(size_t(n), 'a'); for (auto& c : x) { unsigned m = rnd(4); c = m == 0 ? '%' : m == 1 ? "0123456789abcdefABCDEFgG"[rnd(24)] : char(rnd(256)); } dec(x); dec(std::string(size_t(n - 1), 'z') + "%"); }
	const char* q[] = { "", "&", "&&", "=", "==", "a", "a=", "=a", "a=b", "a=b&", "&a=b", "a=b=c", "a=b&&c=d", "A=1&a=2", "a%3Db=c%26d", "a&b&c", "a=1&b=2&c=3&d=4&e=5&f=6&g=7&h=8&i=9&j=1&k=1&l=1&m=1&n=1&o=1&p=1&q=1&r=1&s=1", "=&=&=" };
	for (auto x : q) for (int i = 0; i < 6; ++i) query(x);
	for (int i = 0; i < 4000 && timeLeft(); ++i) { std::string x; for (int j = rnd(24); j > 0; --j) x += rnd(3) ? std::string(1, "ab&=&=A%1"[rnd(9) % 7]) : urich(true); query(x); }
	while (timeLeft()) scenario(false, false);
	return 0;
}
