// C14: files are transferred exactly: one response with an ETag when they fit the buffer, otherwise in pieces bounded by the buffer size.
#include "handler.h"
static std::string R; struct F { std::string name, data, mime; }; static std::vector<F> files; static std::map<std::string, std::string> etags;
static Pillow::HttpHandlerFile* H;
static std::string md5(const std::string& s) { return S(QCryptographicHash::hash(QByteArray(s.data(), int(s.size())), QCryptographicHash::Md5).toHex()); }
static void mk(const std::string& n, size_t size, const char* mime) { F f; f.name = n; f.mime = mime; for (size_t i = 0; i < size; ++i) f.data += char(rnd(256)); put(R + "/" + n, f.data); files.push_back(f); }
struct Rq { size_t file; bool head, http11, inm, noOpen; };
static void one()
{
	static int bs[] = { 0, 1, 100, 511, 512, 513, 600, 1000, 4096, 20000, -1, 70000 }; int buf = bs[rnd(12)]; Pillow::HttpHandlerFile h(QString::fromStdString(R)); if (rnd(9)) h.setBufferSize(buf); else buf = 512 * 1024;
	CHECK(h.bufferSize() == buf, "buffer size"); int eff = buf < 512 ? 512 : buf;
	int n = 1 + int(rnd(4)); std::vector<Rq> rq; std::string raw; std::string expect; bool closes = false; size_t biggestHead = 0; g_case = "buffer " + std::to_string(buf) + ":"; std::vector<std::string> piece; int expected = 0;
	for (int i = 0; i < n; ++i)
	{
		Rq r; r.file = rnd(unsigned(files.size())); r.head = rnd(4) == 0; r.http11 = rnd(4) != 0; r.inm = rnd(3) == 0; r.noOpen = rnd(12) == 0; const F& f = files[r.file]; bool keep = r.http11 || rnd(2);
		std::string tag = md5(f.data), hdr; int kind = int(rnd(10)); std::string near = tag; near[rnd(32)] ^= 1; const std::string cond[] = { md5("other"), tag.substr(0, 31), tag.substr(1), tag + "0", "0" + tag, near, tag + ", " + md5("other") }; if (r.inm) hdr = "If-None-Match: " + (kind < 7 ? cond[kind] : tag) + "\r\n"; bool match = r.inm && kind >= 7; if (r.noOpen && i) r.noOpen = false; if (r.noOpen) n = 1;
		raw = (r.head ? "HEAD /" : "GET /") + f.name + (r.http11 ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n") + hdr + (keep ? "Connection: keep-alive\r\n" : "") + "\r\n"; piece.push_back(raw);
		g_case += " [" + esc(raw) + " " + std::to_string(f.data.size()) + " bytes" + (r.noOpen ? ", cannot be opened" : "") + "]"; rq.push_back(r);
		if (!closes)
		{
			++expected; std::string v = r.http11 ? "HTTP/1.1 " : "HTTP/1.0 ", tail = r.http11 ? "" : keep ? "Connection: keep-alive\r\n" : "Connection: close\r\n", o;
			bool fits = (long long)f.data.size() <= buf;
			if (r.noOpen) { std::string b = "The requested resource '/" + f.name + "' is not accessible"; o = v + "403 Forbidden\r\nContent-Length: " + std::to_string(b.size()) + "\r\nContent-Type: text/plain\r\n" + tail + "\r\n"; biggestHead = std::max(biggestHead, o.size()); if (!r.head) o += b; }
			else if (fits && match) { o = v + "304 Not Modified\r\nContent-Length: 0\r\n" + tail + "\r\n"; }
			else { o = v + "200 OK\r\n" + (fits ? "ETag: " + tag + "\r\n" : "") + "Content-Length: " + std::to_string(f.data.size()) + "\r\nContent-Type: " + f.mime + "\r\n" + tail + "\r\n"; biggestHead = std::max(biggestHead, o.size()); if (!r.head) o += f.data; }
			expect += o; if (!keep) closes = true;
		}
	}
	bool hold = rnd(3) != 0, dieEarly = rnd(8) == 0, delConn = rnd(2), pipelined = rnd(3) == 0; g_case += hold ? " slow client" : ""; g_case += pipelined ? " pipelined" : ""; g_case += dieEarly ? " client goes away" : "";
	HttpConnection* c = new HttpConnection; SDev d; d.hold = hold; int handled = 0; std::vector<bool> ok; bool blocked = false; struct rlimit old; getrlimit(RLIMIT_NOFILE, &old);
	QObject::connect(c, &HttpConnection::requestReady, [&](HttpConnection* r) { bool no = handled < int(rq.size()) && rq[size_t(handled)].noOpen; ++handled; if (no) { struct rlimit l = old; int fd = dup(0); close(fd); l.rlim_cur = rlim_t(fd); setrlimit(RLIMIT_NOFILE, &l); blocked = true; } bool k = h.handleRequest(r); if (no) setrlimit(RLIMIT_NOFILE, &old); CHECK(k, "declined"); });
	if (pipelined) { std::string all; for (int i = 0; i < n; ++i) all += piece[size_t(i)]; d.in.push_back(all); } else for (int i = 0; i < n; ++i) d.in.push_back(piece[size_t(i)]);
	c->initialize(&d, &d); int idle = 0; size_t dieAt = dieEarly ? rnd(unsigned(expect.size() + 1)) : size_t(-1); bool single = n == 1;
	for (int step = 0; step < 60000 && idle < 12; ++step)
	{
		bool tried = true; size_t o = d.out.size(); qint64 pw = d.pendingWrite; size_t in = d.in.size(); int hd = handled; if (c->state() == HttpConnection::ReceivingHeaders) d.pump();
		if (d.out.size() >= dieAt) { if (delConn) { delete c; c = 0; } else c->close(); break; }
		if (hold) { tried = rnd(3) != 0; if (tried) d.drain(1 + rnd(rnd(2) ? 3000 : 300)); } else if (d.isOpen()) emit d.bytesWritten(1);
		QCoreApplication::processEvents(); if (rnd(4) == 0) QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete);
		idle = (o == d.out.size() && pw == d.pendingWrite && in == d.in.size() && hd == handled) ? idle + (tried ? 1 : 0) : 0;
		if (hold && single) CHECK(d.peak <= std::max(qint64(eff), qint64(biggestHead)) || (long long)files[rq[0].file].data.size() <= buf, "%lld bytes queued with a buffer of %d", (long long)d.peak, buf);
	}
	size_t len = d.out.size(); bool early = dieAt != size_t(-1);
	CHECK(len <= expect.size() && expect.compare(0, len, d.out) == 0, "bytes sent differ from the expected at %d: got %s expected %s", int(std::mismatch(d.out.begin(), d.out.begin() + long(std::min(len, expect.size())), expect.begin()).first - d.out.begin()), esc(d.out.substr(0, 300)).c_str(), esc(expect.substr(0, 300)).c_str());
	if (!early || len < dieAt) { CHECK(len == expect.size(), "%d of %d bytes sent", int(len), int(expect.size())); CHECK(handled == expected, "%d of %d requests handled", handled, expected); if (c) CHECK((c->state() == HttpConnection::Closed) == closes, "state %d at the end", c->state()); }
	for (int i = 0; i < 4; ++i) { if (hold) d.drain(5000); if (d.isOpen()) emit d.bytesWritten(1); QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); }
	CHECK(d.out.size() == len, "wrote after the end");
	if (c && c->state() != HttpConnection::Closed && c->state() != HttpConnection::Uninitialized) c->close(); delete c; QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete);
	int fd = dup(0); close(fd); static int first = fd; if (fd > first + 8) CHECK(false, "file descriptors leaked: next is %d", fd);
}
// the source of a transfer is any device: its pieces follow each other from the position it is at
static void transfer()
{
	int buf = int(rnd(1500)); std::string data; for (int i = int(rnd(6000)); i >= 0; --i) data += char(rnd(256)); size_t skip = rnd(unsigned(data.size())); int eff = buf < 512 ? 512 : buf;
	g_case = "HttpHandlerFileTransfer of " + std::to_string(data.size()) + " bytes from " + std::to_string(skip) + " with buffer " + std::to_string(buf);
	QByteArray bytes(data.data(), int(data.size())); QBuffer* src = new QBuffer; src->setData(bytes); src->open(QIODevice::ReadOnly); src->seek(qint64(skip));
	HttpConnection c; SDev d; d.hold = true; QPointer<HttpHandlerFileTransfer> t; int fin = 0;
	QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection* r) { r->writeHeaders(200, HttpHeaderCollection() << HttpHeader("Content-Length", QByteArray::number(int(data.size() - skip)))); d.out.clear(); d.drain(1 << 30); d.peak = 0; t = new HttpHandlerFileTransfer(src, r, buf); QObject::connect(t.data(), &HttpHandlerFileTransfer::finished, [&] { ++fin; }); t->writeNextPayload(); });
	d.in.push_back("GET / HTTP/1.1\r\n\r\n"); c.initialize(&d, &d); d.pump();
	bool drop = rnd(6) == 0; 
	for (int i = 0; i < 3000 && d.out.size() < data.size() - skip; ++i) { d.drain(1 + rnd(400)); QCoreApplication::processEvents(); if (drop && d.out.size() * 2 > data.size() - skip) { delete src; src = 0; size_t n = d.out.size(); for (int k = 0; k < 20; ++k) { d.drain(500); QCoreApplication::processEvents(); } CHECK(d.out.size() == n, "went on after its source was destroyed"); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); CHECK(!t, "transfer not released"); c.close(); return; } }
	CHECK(d.out == data.substr(skip), "transferred %d bytes instead of %d, or different ones", int(d.out.size()), int(data.size() - skip)); CHECK(d.peak <= eff, "%lld bytes queued with a buffer of %d", (long long)d.peak, eff); CHECK(fin == 1, "finished %d times", fin);
	for (int i = 0; i < 3; ++i) { d.drain(100000); QCoreApplication::processEvents(); } QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); CHECK(!t, "transfer not released after completion"); CHECK(fin == 1, "finished %d times", fin); delete src; c.close();
}
// a source larger than 2 GB is transferred like any other
struct Huge : QIODevice { qint64 n; Huge(qint64 n) : n(n) { open(ReadOnly | Unbuffered); } qint64 size() const { return n; } static char at(qint64 i) { return char((i * 2654435761LL) >> 13); } qint64 readData(char* p, qint64 m) { qint64 b = pos(); if (m > n - b) m = n - b; for (qint64 i = 0; i < m; ++i) p[i] = at(b + i); return m; } qint64 writeData(const char*, qint64) { return -1; } };
static void huge()
{
	static const qint64 big[] = { (1LL << 31) - 1, 1LL << 31, (1LL << 31) + 1000, 3LL << 30, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 5, 5LL << 32 }; qint64 n = big[rnd(8)], skip = rnd(2) ? 0 : rnd(3000); int buf = int(rnd(6000)), eff = buf < 512 ? 512 : buf; Huge src(n + skip); src.seek(skip);
	g_case = "HttpHandlerFileTransfer of a source of " + std::to_string(n + skip) + " bytes from " + std::to_string(skip) + " with buffer " + std::to_string(buf);
	HttpConnection c; SDev d; d.hold = true; QPointer<HttpHandlerFileTransfer> t; int fin = 0;
	QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection* r) { r->writeHeaders(200, HttpHeaderCollection() << HttpHeader("Content-Length", QByteArray::number(n))); d.out.clear(); d.drain(1 << 30); d.peak = 0; t = new HttpHandlerFileTransfer(&src, r, buf); QObject::connect(t.data(), &HttpHandlerFileTransfer::finished, [&] { ++fin; }); t->writeNextPayload(); });
	d.in.push_back("GET / HTTP/1.1\r\n\r\n"); c.initialize(&d, &d); d.pump(); const size_t want = size_t(eff) * 4;
	for (int i = 0; i < 4000 && d.out.size() < want; ++i) { d.drain(1 + rnd(4000)); QCoreApplication::processEvents(); }
	CHECK(d.out.size() >= want && fin == 0, "%d bytes transferred, finished %d times", int(d.out.size()), fin); CHECK(d.peak <= eff, "%lld bytes queued with a buffer of %d", (long long)d.peak, eff);
	for (size_t i = 0; i < d.out.size(); ++i) CHECK(d.out[i] == Huge::at(skip + qint64(i)), "byte %d differs", int(i)); c.close(); QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); delete t.data();
}
int main(int argc, char** argv)
{
	init(); QCoreApplication app(argc, argv); R = scratch() + "/c14"; mkdir(R.c_str(), 0755);
	size_t sz[] = { 0, 1, 99, 100, 101, 510, 511, 512, 513, 514, 599, 600, 601, 1000, 1001, 1024, 4095, 4096, 4097, 19999, 20000, 20001, 70001 }; static const char* ext[][2] = { { "html", "text/html" }, { "JPG", "image/jpeg" }, { "jpeg", "image/jpeg" }, { "png", "image/png" }, { "gif", "image/gif" }, { "css", "text/css" }, { "js", "text/javascript" }, { "xml", "text/xml" }, { "bin", "application/octet-stream" }, { "txt", "application/octet-stream" } };
	for (size_t i = 0; i < sizeof sz / sizeof *sz; ++i) { auto& e = ext[i % 10]; mk("f" + std::to_string(i) + "." + e[0], sz[i], e[1]); } mk("noextension", 50, "application/octet-stream"); mk("html", 50, "application/octet-stream");
	while (timeLeft()) { one(); if (rnd(3) == 0) transfer(); if (rnd(10) == 0) huge(); }
	return 0;
}
