// C18: every accepted socket gets a connection of its own, taken from or returned to a bounded reserve exactly once.
#include "conn.h"
#include "HttpServer.h"
#include <QtNetwork/QTcpSocket>
#include <QtNetwork/QLocalSocket>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <set>
#include <map>
struct Srv : Pillow::HttpServer { void in(qintptr fd) { incomingConnection(fd); } };
static int g_listen = -1; static sockaddr_in g_addr;
static void pair(int& client, int& server)
{
	if (g_listen < 0) { g_listen = socket(AF_INET, SOCK_STREAM, 0); memset(&g_addr, 0, sizeof g_addr); g_addr.sin_family = AF_INET; g_addr.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof g_addr; if (bind(g_listen, (sockaddr*)&g_addr, l) || listen(g_listen, 64) || getsockname(g_listen, (sockaddr*)&g_addr, &l)) { printf("no loopback\n"); exit(3); } }
	client = socket(AF_INET, SOCK_STREAM, 0); if (connect(client, (sockaddr*)&g_addr, sizeof g_addr)) { printf("cannot connect\n"); exit(3); } linger lg = { 1, 0 }; setsockopt(client, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); server = accept(g_listen, 0, 0);
}
static void spin(const std::function<bool()>& done, int ms = 3000) { double end = nowSec() + ms / 1000.0; do { QCoreApplication::processEvents(QEventLoop::AllEvents, 1); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); } while (!done() && nowSec() < end); }
static std::string readAll(int fd) { std::string r; char b[4096]; for (;;) { pollfd p = { fd, POLLIN, 0 }; if (poll(&p, 1, 0) <= 0) break; ssize_t n = recv(fd, b, sizeof b, MSG_DONTWAIT); if (n <= 0) break; r.append(b, n); } return r; }
struct Open { int fd; HttpConnection* c; QPointer<QObject> sock; int sent; };
template <class S> static int kids(S& s) { return s.template findChildren<HttpConnection*>().size(); }
// accept(): makes a client connected to the server; returns its fd
template <class Server> static void history(Server& s, const std::function<int()>& accept, const std::function<int()>& sockets, bool tcp, Srv* srv)
{
	std::vector<Open> open; std::map<HttpConnection*, int> got; HttpConnection* last = 0; int calls = 0; int serial = 0; size_t most = 0;
	QObject::connect(&s, &Server::requestReady, [&](HttpConnection* c) { last = c; ++calls; ++got[c]; });
	CHECK(kids(s) == 25, "a new server has %d connections in reserve", kids(s)); int steps = 20 + rnd(60); g_case = std::string(tcp ? "tcp" : "local") + " history:";
	auto audit = [&]() { CHECK(sockets() == int(open.size()), "%d sockets for %d open clients", sockets(), int(open.size())); int total = kids(s), reserve = total - int(open.size()); CHECK(reserve >= 0 && reserve <= 25, "%d connection objects for %d open clients", total, int(open.size())); CHECK(total >= int(std::min<size_t>(25, most)), "connections lost: %d", total); };
	auto finishOpen = [&](Open& o) {      // a first request tells which connection it got
		last = 0; calls = 0; std::string q = "GET /" + std::to_string(++serial) + " HTTP/1.1\r\n\r\n"; if (write(o.fd, q.data(), q.size()) < 0) FAIL("write"); spin([&] { return calls > 0; }); CHECK(calls == 1, "%d notifications for one request", calls);
		o.c = last; for (auto& x : open) CHECK(x.c != o.c, "the connection of an open client was given to another one"); CHECK(S(o.c->requestPath()) == "/" + std::to_string(serial), "request of another client"); CHECK(o.c->inputDevice() && o.c->inputDevice() == o.c->outputDevice(), "devices"); for (auto& x : open) CHECK(x.sock.data() != o.c->inputDevice(), "the socket of another client"); o.sock = o.c->inputDevice();
		o.c->writeResponse(200, HttpHeaderCollection(), "r" + QByteArray::number(serial)); std::string want = "r" + std::to_string(serial), r; spin([&] { r += readAll(o.fd); return r.size() >= want.size() && r.substr(r.size() - want.size()) == want; }); CHECK(r.size() >= want.size() && r.substr(r.size() - want.size()) == want, "answer %s", esc(r).c_str());
	};
	for (int i = 0; i < steps && timeLeft(); ++i)
	{
		unsigned k = rnd(10); bool grow = rnd(3) != 0;
		if (k < 5 && open.size() < (grow ? 40u : 5u)) { g_case += " open"; int burst = rnd(6) == 0 ? 1 + rnd(12) : 1; std::vector<Open> fresh; for (int j = 0; j < burst; ++j) { Open o = { accept(), 0, 0, 0 }; fresh.push_back(o); } for (auto& o : fresh) { finishOpen(o); open.push_back(o); } most = std::max(most, open.size()); }
		else if (k == 5 && !open.empty()) { Open& o = open[rnd(open.size())]; g_case += " again"; last = 0; calls = 0; std::string q = "GET /" + std::to_string(++serial) + " HTTP/1.1\r\n\r\n"; if (write(o.fd, q.data(), q.size()) < 0) FAIL("write"); spin([&] { return calls > 0; }); CHECK(calls == 1 && last == o.c, "the second request came %d times, on %s connection", calls, last == o.c ? "its" : "another"); o.c->writeResponse(204); spin([&] { return readAll(o.fd).size() > 0; }); }
		else if (k < 9 && !open.empty()) { int n = rnd(5) == 0 ? 1 + rnd(open.size()) : 1; for (; n > 0; --n) { unsigned j = rnd(open.size()); Open o = open[j]; open.erase(open.begin() + j); unsigned how = rnd(3); g_case += how == 0 ? " client-closes" : how == 1 ? " server-closes" : " client-half"; if (how == 0) close(o.fd); else if (how == 1) o.c->close(); else { if (write(o.fd, "GET /x HT", 9) < 0) {} close(o.fd); } spin([&] { return o.sock.isNull(); }); CHECK(o.sock.isNull(), "the socket of a closed connection is not deleted"); if (how == 1) close(o.fd); } }
		else if (srv && tcp) { g_case += " bad-descriptor"; int before = kids(s), sk = sockets(), c0 = calls; int fd = rnd(2) ? -1 : 100000; srv->in(fd); spin([] { return true; }); CHECK(kids(s) == before && calls == c0, "a bad descriptor created a connection"); CHECK(sockets() == sk, "a socket was left behind by a bad descriptor"); }
		audit();
	}
	for (auto& o : open) close(o.fd);
	if (rnd(2)) { spin([&] { return sockets() == 0; }); open.clear(); audit(); CHECK(kids(s) <= 25, "%d connections in reserve", kids(s)); }
}
int main(int argc, char** argv)
{
	init(); QCoreApplication app(argc, argv);
	while (timeLeft())
	{
		{ Srv s; history(s, [&] { int c, f; pair(c, f); s.in(f); return c; }, [&] { return s.findChildren<QTcpSocket*>().size(); }, true, &s); }
		{ Pillow::HttpServer s(QHostAddress::LocalHost, 0); CHECK(s.isListening(), "not listening"); history<Pillow::HttpServer>(s, [&] { int n = s.findChildren<QTcpSocket*>().size(); int c = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = g_addr; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(s.serverPort()); if (connect(c, (sockaddr*)&a, sizeof a)) FAIL("cannot connect"); linger lg = { 1, 0 }; setsockopt(c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); spin([&] { return s.findChildren<QTcpSocket*>().size() > n; }); return c; }, [&] { return s.findChildren<QTcpSocket*>().size(); }, true, 0); }
		{
			const char* sc = getenv("REPLAY_SCRATCH"); std::string name = std::string(sc && *sc ? sc : ".") + "/s18"; if (name.size() > 90) name = "/tmp/pvc-s18-" + std::to_string(getpid()); unlink(name.c_str());
			Pillow::HttpLocalServer s(QString::fromStdString(name)); if (!s.isListening()) { printf("no local sockets\n"); return 3; }
			history<Pillow::HttpLocalServer>(s, [&] { int n = s.findChildren<QLocalSocket*>().size(); int c = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path, name.c_str(), sizeof a.sun_path - 1); if (connect(c, (sockaddr*)&a, sizeof a)) FAIL("cannot connect"); spin([&] { return s.findChildren<QLocalSocket*>().size() > n; }); return c; }, [&] { return s.findChildren<QLocalSocket*>().size(); }, false, 0);
			s.close(); unlink(name.c_str());
		}
	}
	return 0;
}
