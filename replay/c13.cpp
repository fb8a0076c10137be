// C13: the file handler serves only regular files strictly inside the canonical public directory, and declines everything else without a response.
#include "handler.h"
static std::map<std::string, std::string> g_files;     // canonical path -> unique content
static std::string R;
static void file(const std::string& rel) { std::string p = R + "/" + rel, d = "content of " + rel + (rnd(2) ? std::string(size_t(rnd(900)), 'x') : ""); put(p, d); g_files[p] = d; }
static void layout()
{
	R = scratch() + "/c13"; char* rp = 0; mkdir(R.c_str(), 0755); rp = realpath(R.c_str(), 0); R = rp; free(rp);
	for (const char* d : { "pub", "pub/sub", "pub/sub/deep", "pub2", "pub-secret", "pub/pub", "outside", "pu", "pub.d", "pub/empty" }) mkdir((R + "/" + d).c_str(), 0755);
	for (const char* f : { "pub/a.txt", "pub/b.html", "pub/sub/b.txt", "pub/sub/deep/c.bin", "pub/sp ace.txt", "pub/%41.txt", "pub/pub/a.txt", "pub/...", "pub/..a", "pub/a", "pub2/a.txt", "pub2/secret", "pub-secret/a.txt", "pubX", "pub.txt", "pub.d/a", "outside/secret", "outside/a.txt", "a.txt", "secret", "pu/a.txt" }) file(f);
	struct { const char* to; const char* name; } L[] = { { "a.txt", "pub/in" }, { "../outside/secret", "pub/out" }, { "../pub2", "pub/dirout" }, { "../pub-secret/a.txt", "pub/out2" }, { "../pubX", "pub/out3" }, { "sub", "pub/dirin" }, { "loop", "pub/loop" }, { "nowhere", "pub/dangling" }, { "..", "pub/up" }, { "../pub/sub/b.txt", "pub/round" }, { "../pub2/a.txt", "pub/sub/outx" }, { "pub", "publink" }, { "pub2", "pub2link" }, { ".", "pub/here" } };
	for (auto& l : L) { unlink((R + "/" + l.name).c_str()); if (symlink(l.to, (R + "/" + l.name).c_str())) exit(3); }
	symlink((R + "/outside/secret").c_str(), (R + "/pub/absout").c_str()); symlink((R + "/pub/a.txt").c_str(), (R + "/pub/absin").c_str());
	mkfifo((R + "/pub/fifo").c_str(), 0644);
}
static std::string canon(const std::string& p) { char* r = realpath(p.c_str(), 0); if (!r) return std::string(); std::string s = r; free(r); return s; }
static bool isReg(const std::string& p) { struct stat s; return !stat(p.c_str(), &s) && S_ISREG(s.st_mode); }
static bool inside(const std::string& pub, const std::string& p) { if (pub.empty()) return false; std::string b = pub == "/" ? pub : pub + "/"; return p.size() > b.size() && p.compare(0, b.size(), b) == 0; }
static std::string mkPath()
{
	static const char* seg[] = { "a.txt", "b.html", "sub", "sub/b.txt", "sub/deep/c.bin", "sp ace.txt", "%41.txt", "pub", "pub2", "pub-secret", "pubX", "pub.txt", "outside", "secret", "in", "out", "out2", "out3", "dirout", "dirin", "loop", "dangling", "up", "round", "outx", "here", "absout", "absin", "..", "..", "..", ".", "", "2", "-secret", "X", ".d", "a", "fifo", "empty", "nothing", "...", "..a", "/", "A.TXT" };
	static const char* whole[] = { "2/a.txt", "2/secret", "-secret/a.txt", "X", ".txt", ".d/a", "/../pub2/a.txt", "/../pub-secret/a.txt", "/../pubX", "/../outside/secret", "/up/outside/secret", "/up/pub/a.txt", "/dirout/a.txt", "/out2", "/out3", "/sub/outx", "/sub/../../pub2/secret", "/../../../../../../../../etc/passwd", "/a.txt/", "/sub/", "/", "", "/..", "/.", "//a.txt", "/sub//deep/../b.txt", "/fifo", "/a.txt/..", "/nothing/../a.txt", "/up", "/up/pub2/a.txt", "/../pub/a.txt", "/here/here/a.txt", "/flip", "/flip" };
	if (rnd(2)) return whole[rnd(sizeof whole / sizeof *whole)];
	std::string p = rnd(8) ? "/" : ""; for (int i = 1 + rnd(5); i > 0; --i) { p += seg[rnd(sizeof seg / sizeof *seg)]; if (i > 1 || rnd(6) == 0) p += "/"; } return p;
}
static void one(Pillow::HttpHandlerFile& h, const std::string& pub, const std::string& conf)
{
	std::string path = mkPath(); if (pub == "/" && rnd(2)) path = R + "/pub" + path; bool star = rnd(12) == 0;
	std::string enc = encodeAll(path); if (enc.empty() || enc[0] != '/') { if (!enc.empty() && enc[0] == '%') ; else if (rnd(2)) { path = "/" + path; enc = "/" + enc; } else { std::string c = path.empty() ? "2" : path.substr(0, 1); char b[5]; snprintf(b, 5, "%%%02x", (unsigned char)c[0]); if (path.empty()) path = "2"; enc = b + (enc.empty() ? std::string() : enc.substr(enc[0] == '%' ? 3 : 1)); } }
	if (rnd(10) == 0) { bool odd = rnd(2); enc += "%00" + std::string(odd ? ".html" : ""); }      // an encoded NUL ends the name
	g_case = "public path " + esc(conf) + " (" + pub + "), request for " + esc(enc);
	HttpConnection c; Dev d; int ready = 0; bool handled = false; std::string got; QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection* r) { ++ready; got = S(r->requestPath()); handled = h.handleRequest(r); if (!handled) { CHECK(r->state() == HttpConnection::SendingHeaders, "declined but state is %d", r->state()); CHECK(d.out.empty(), "declined but answered %s", esc(d.out).c_str()); } });
	(void)star; d.in.push_back("GET " + enc + " HTTP/1.0\r\n\r\n"); c.initialize(&d, &d); d.pump();
	for (int i = 0; i < 8 && handled; ++i) { if (d.isOpen()) emit d.bytesWritten(1); QCoreApplication::processEvents(); }
	if (!ready) { if (!d.out.empty()) return; CHECK(false, "request not announced"); }
	std::string target = pub + path, real = canon(target); bool slash = !path.empty() && path[path.size() - 1] == '/';
	if (handled)
	{
		size_t b = d.out.find("\r\n\r\n"); CHECK(b != std::string::npos, "handled without an answer"); CHECK(d.out.compare(0, 13, "HTTP/1.0 200 ") == 0, "answer %s", esc(d.out).c_str());
		std::string body = d.out.substr(b + 4); CHECK(!pub.empty(), "served with no public directory: %s", esc(body).c_str()); std::string which;
		for (auto& f : g_files) if (f.second == body) which = f.first;
		if (which.empty()) { CHECK(pub == "/" && !real.empty() && isReg(real), "served unknown content %s", esc(body).c_str()); return; }
		CHECK(inside(pub, which), "served %s, which lies outside the public directory", which.c_str());
		if (!real.empty()) CHECK(real == which, "served %s for %s", which.c_str(), real.c_str()); else CHECK(slash, "served %s for a path that does not exist", which.c_str());
	}
	else if (!real.empty() && isReg(real) && inside(pub, real)) CHECK(false, "declined %s, a file inside the public directory", real.c_str());
	if (d.isOpen()) c.close();
}
int main(int argc, char** argv)
{
	init(); QCoreApplication app(argc, argv); layout(); if (chdir(R.c_str())) return 3;
	while (timeLeft())
	{
		static const char* confs[] = { "@/pub", "@/pub", "@/pub/", "@/pub/.", "pub", "pub/", "./pub", "@/publink", "publink/", "@/pub2/../pub", "@/pub/sub/..", "@/pub/dirin", "@/nothing", "", "@/pubX", "/", "@/pub2", "@/pub/up/pub", "pub2link", "@/pub/loop" };
		std::string conf = confs[rnd(sizeof confs / sizeof *confs)]; if (!conf.empty() && conf[0] == '@') conf = R + conf.substr(1);
		Pillow::HttpHandlerFile h; if (rnd(3) == 0) h.setPublicPath(QString::fromStdString(R + "/" + (rnd(2) ? "pub" : "outside"))); int ch = 0; QObject::connect(&h, &Pillow::HttpHandlerFile::changed, [&] { ++ch; });
		if (rnd(2)) h.setBufferSize(int(rnd(2) ? rnd(300) : 512)); h.setPublicPath(QString::fromStdString(conf));
		std::string pub = conf.empty() ? std::string() : canon(conf);
		for (int i = 0; i < 40; ++i)
		{
			if (rnd(4) == 0) { std::string fl = R + "/pub/flip"; unlink(fl.c_str()); const char* t[] = { "a.txt", "../outside/secret", "../pub2/a.txt", "sub/b.txt" }; symlink(t[rnd(4)], fl.c_str()); }
			one(h, pub, conf);
		}
	}
	return 0;
}
