#include "common.h"
#include "HttpHelpers.h"
#include <map>
using namespace Pillow;
static std::map<int, std::string> table()
{
	std::map<int, std::string> t;
	struct { int c; const char* s; } r[] = { {100,"Continue"},{101,"Switching Protocols"},{200,"OK"},{201,"Created"},{202,"Accepted"},{203,"Non-Authoritative Information"},{204,"No Content"},{205,"Reset Content"},{206,"Partial Content"},
	{300,"Multiple Choices"},{301,"Moved Permanently"},{302,"Found"},{303,"See Other"},{304,"Not Modified"},{305,"Use Proxy"},{307,"Temporary Redirect"},
	{400,"Bad Request"},{401,"Unauthorized"},{403,"Forbidden"},{404,"Not Found"},{405,"Method Not Allowed"},{406,"Not Acceptable"},{407,"Proxy Authentication Required"},{408,"Request Timeout"},{409,"Conflict"},{410,"Gone"},{411,"Length Required"},{412,"Precondition Failed"},{413,"Request Entity Too Large"},{414,"Request-URI Too Long"},{415,"Unsupported Media Type"},{416,"Requested Range Not Satisfiable"},{417,"Expectation Failed"},
	{500,"Internal Server Error"},{501,"Not Implemented"},{502,"Bad Gateway"},{503,"Service Unavailable"},{504,"Gateway Timeout"},{505,"HTTP Version Not Supported"} };
	for (auto& x : r) t[x.c] = x.s;
	return t;
}
static void status(int c, const std::map<int, std::string>& t)
{
	char b[60]; snprintf(b, 60, "status code %d", c); g_case = b;
	const char* p = HttpProtocol::StatusCodes::getStatusCodeAndMessage(c); const char* m = HttpProtocol::StatusCodes::getStatusMessage(c);
	auto it = t.find(c);
	if (it == t.end()) { CHECK(!p && !m, "expected nothing, got %s / %s", p ? p : "-", m ? m : "-"); return; }
	CHECK(p && m, "nothing for a known code");
	CHECK(std::to_string(c) + " " + it->second == p && it->second == m, "got \"%s\" / \"%s\"", p, m);
}
int main()
{
	init();
	auto t = table();
	for (int i = -3000; i < 70000; ++i) status(i, t);
	for (int k = 16; k < 32; ++k) for (int d = -600; d <= 600; ++d) { status(int((1u << k) + unsigned(d)), t); status(int(unsigned(-1) - (1u << k) + unsigned(d)), t); }
	for (auto& x : t) for (int k = 8; k < 32; ++k) status(int(unsigned(x.first) ^ (1u << k)), t);
	struct { const char* e; const char* m; } mt[] = { {".html","text/html"},{".jpg","image/jpeg"},{".jpeg","image/jpeg"},{".png","image/png"},{".gif","image/gif"},{".css","text/css"},{".js","text/javascript"},{".xml","text/xml"} };
	const char* stems[] = { "", "a", "/x/y", "a.html", "b.JPG.", "index.png.gif", "x.", ".", "..", "\xc3\xa9t\xc3\xa9", "a b", "js", "a/b.js/c", "html", "foo.htm", "x.jp", "xjpg" };
	const char* exts[] = { "", ".html", ".jpg", ".jpeg", ".png", ".gif", ".css", ".js", ".xml", ".htm", ".json", ".jsx", ".txt", "html", ".xhtml", ".jpe", ".mjpg", ".js ", ".xm", ".svg", ".html5", ".css.map", ".gz", ".jpg2" };
	for (const char* s : stems) for (const char* e : exts) for (int mask = 0; mask < 32; ++mask)
	{
		QByteArray n = QByteArray(s) + e; int L = int(strlen(e)); for (int i = 0; i < L && i < 5; ++i) if (mask >> i & 1) { char& c = n.data()[n.size() - 1 - i]; if (c >= 'a' && c <= 'z') c -= 32; }
		g_case = "file name " + esc(n); const char* w = "application/octet-stream"; QByteArray low = n.toLower();
		for (auto& x : mt) if (low.endsWith(x.e)) w = x.m;
		const char* g = HttpMimeHelper::getMimeTypeForFilename(QString::fromUtf8(n)); CHECK(g && !strcmp(g, w), "got %s expected %s", g, w);
	}
	static const char* dn[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }; static const char* mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
	for (int i = 0; i < 60000 && timeLeft(); ++i)
	{
		qint64 lo = -30610224000ll, hi = 253402300799ll; qint64 s = i < 800 ? qint64(i) * 86400 * 37 + i * 3599 : i < 3000 ? 1700000000ll + qint64(i) * 61 : lo + qint64(g_rng() % quint64(hi - lo));
		time_t tt = s; tm u; gmtime_r(&tt, &u); char w[80]; snprintf(w, 80, "%s, %02d %s %04d %02d:%02d:%02d GMT", dn[u.tm_wday], u.tm_mday, mn[u.tm_mon], u.tm_year + 1900, u.tm_hour, u.tm_min, u.tm_sec);
		QDateTime d = QDateTime::fromMSecsSinceEpoch(s * 1000 + rnd(1000), Qt::UTC); if (i % 3 == 1) d = d.toOffsetFromUtc(int(rnd(24 * 4)) * 900 - 43200); if (i % 3 == 2) d = d.toLocalTime();
		g_case = "date " + esc(d.toString(Qt::ISODate)); QByteArray g = HttpProtocol::Dates::getHttpDate(d); CHECK(g == w, "got %s expected %s", esc(g).c_str(), w);
	}
	return 0;
}
