#include "common.h"
#include "HttpHeader.h"
#include "private/ByteArray.h"
static QByteArray rbytes(int n) { QByteArray r; for (int i = 0; i < n; ++i) r.append(char(1 + rnd(255))); return r; }
static void build(Pillow::ByteArray& t, int kind, const QByteArray& old, int spare)
{
	if (kind == 0) { QByteArray q; q.reserve(old.size() + spare); q.append(old); t = q; }
	else if (kind == 1) t = QByteArray::fromRawData(old.constData(), old.size());
	else if (kind == 2) { static_cast<QByteArray&>(t) = QByteArray(); }
	else { static_cast<QByteArray&>(t) = QByteArray(old.constData(), old.size()); t.reserve(old.size() + spare); t.reserve(0); }
}
int main()
{
	init();
	for (int it = 0; it < 60000 && timeLeft(); ++it)
	{
		int kind = rnd(4), n = rnd(3) ? rnd(40) : rnd(3000), spare = rnd(50), op = rnd(8), m = rnd(4) ? rnd(60) : rnd(5000);
		QByteArray old = kind == 2 ? QByteArray() : rbytes(n), arg = rbytes(m), name = rbytes(rnd(20)), value = rbytes(m), oldCopy(old.constData(), old.size()), wanted;
		char t[300]; snprintf(t, 300, "builder kind %d (0 owned+reserve, 1 raw, 2 null, 3 owned) old size %d, spare %d, append overload %d with %d bytes", kind, old.size(), spare, op, m); g_case = t;
		Pillow::ByteArray b; build(b, kind, old, spare);
		QByteArray argCopy(arg.constData(), arg.size());
		switch (op)
		{
			case 0: b.append(arg); wanted = arg; break;
			case 1: b.append(arg.constData(), arg.size()); wanted = arg; break;
			case 2: { char c = char(rnd(256)); b.append(c); wanted = QByteArray(1, c); } break;
			case 3: b.append("\r\n"); wanted = QByteArray("\r\n", 2); break;
			case 4: b.append(Pillow::HttpHeader(name, value)); wanted = name + QByteArray(": ", 2) + value + QByteArray("\r\n", 2); break;
			case 5: b.append(Pillow::Token("Content-Type: ")); wanted = QByteArray("Content-Type: "  , 14); break;
			case 6: b.append(Pillow::LowerCaseToken("keep-alive")); wanted = QByteArray("keep-alive", 10); break;
			case 7: { QLatin1Literal l("HTTP/1.1 "); b.append(l); wanted = QByteArray("HTTP/1.1 ", 9); } break;
		}
		QByteArray expect = oldCopy + wanted;
		CHECK(b.size() == expect.size() && memcmp(b.constData(), expect.constData(), expect.size()) == 0, "got %s expected %s", esc(b).c_str(), esc(expect).c_str());
		CHECK(arg == argCopy, "argument changed"); CHECK(old == oldCopy, "foreign storage changed: %s", esc(old).c_str());
		CHECK(b.size() <= b.capacity() || b.capacity() == 0, "size %d above capacity %d", b.size(), b.capacity());
	}
	// comparisons
	const char* lits[] = { "keep-alive", "close", "" };
	for (const char* l : { "keep-alive", "keep-alivf", "close", "Close", "closex", "clos", "", "leep-alive", "keep-Alive" })
	{
		Pillow::ByteArray b; b = QByteArray(l); g_case = std::string("comparison with ") + l;
		bool ka = QByteArray(l) == QByteArray("keep-alive"), cl = QByteArray(l) == QByteArray("close");
		CHECK((b == Pillow::Token("keep-alive")) == ka && (b != Pillow::Token("keep-alive")) == !ka, "Token");
		CHECK((b == Pillow::LowerCaseToken("close")) == cl && (b != Pillow::LowerCaseToken("close")) == !cl, "LowerCaseToken");
		QLatin1Literal q("close"); CHECK((b == q) == cl && (b != q) == !cl, "QLatin1Literal");
	}
	(void) lits;
	return 0;
}
