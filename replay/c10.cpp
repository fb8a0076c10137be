#include "common.h"
#include "ByteArrayHelpers.h"
using namespace Pillow::ByteArrayHelpers;
template <class I, int B> static QByteArray want(I v)
{
	std::string s; bool neg = v < 0; __int128 n = v; if (neg) n = -n;
	do { s.insert(s.begin(), "0123456789abcdef"[int(n % B)]); n /= B; } while (n > 0);
	if (neg) s.insert(s.begin(), '-');
	return QByteArray(s.c_str());
}
static const char* prefixes[] = { "", "x", "-", "0", "Content-Length: ", "abcdefghijklmnopqrstuvwxyz0123456789" };
template <class I, int B> static void one(I v, const char* name)
{
	for (const char* p : prefixes) for (int mode = 0; mode < 4; ++mode)
	{
		char t[200]; snprintf(t, 200, "appendNumber<%s,%d>(\"%s\" mode %d, %lld)", name, B, p, mode, (long long)v); g_case = t;
		QByteArray other(p), a = mode == 0 ? QByteArray(p) : mode == 1 ? other : mode == 2 ? QByteArray::fromRawData(p, int(strlen(p))) : QByteArray(p);
		if (mode == 3) { a.reserve(int(strlen(p)) + 3); }
		appendNumber<I, B>(a, v);
		QByteArray w = QByteArray(p) + want<I, B>(v);
		CHECK(a == w, "appended text: got %s expected %s", esc(a).c_str(), esc(w).c_str());
		CHECK(other == QByteArray(p), "another byte array sharing the storage changed to %s", esc(other).c_str());
	}
}
template <class I> static void values(const char* name)
{
	std::vector<I> vs; I mn = std::numeric_limits<I>::min(), mx = std::numeric_limits<I>::max();
	for (int i = -70000; i <= 70000; i += (i > -1200 && i < 1200) ? 1 : 137) vs.push_back(I(i));
	for (int k = 0; k < int(sizeof(I)) * 8 - 1; ++k) for (int d = -2; d <= 2; ++d) { I x = I(I(1) << k); vs.push_back(I(x + d)); vs.push_back(I(-(x + d))); }
	I p = 1; for (int k = 0; k < (sizeof(I) == 4 ? 9 : 18); ++k) { p *= 10; for (int d = -2; d <= 2; ++d) { vs.push_back(p + d); vs.push_back(-(p + d)); } }
	for (int d = 0; d < 20; ++d) { vs.push_back(mn + d); vs.push_back(mx - d); }
	for (int i = 0; i < 3000; ++i) { I x; quint64 r = g_rng(); memcpy(&x, &r, sizeof x); int s = int(g_rng() % (sizeof(I) * 8)); vs.push_back(x >> s); }
	for (I v : vs) { one<I, 10>(v, name); one<I, 16>(v, name); }
}
int main() { init(); values<int>("int"); values<qint64>("qint64"); return 0; }
