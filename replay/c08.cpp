#include "conn.h"
int main(int ac, char** av)
{
	QCoreApplication app(ac, av); init();
	// destruction and closing of the device from outside
	for (int i = 0; i < 200; ++i)
	{
		g_case = "device closed by its owner " + std::to_string(i); HttpConnection c; Dev d; int closed = 0, ready = 0; QObject::connect(&c, &HttpConnection::closed, [&](HttpConnection*) { ++closed; }); QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection*) { ++ready; });
		CHECK(c.state() == HttpConnection::Uninitialized, "initial state"); std::string raw = "POST / HTTP/1.1\r\nContent-Length: 4\r\n\r\nabcd"; unsigned n = rnd(unsigned(raw.size() + 1)); if (n) d.in.push_back(raw.substr(0, n)); c.initialize(&d, &d); if (rnd(2)) d.pump(); else QCoreApplication::processEvents();
		CHECK(ready == (n == raw.size()), "announced %d", ready); static_cast<QIODevice&>(d).close(); CHECK(closed == 1 && c.state() == HttpConnection::Closed, "closed announced %d times", closed);
		c.close(); c.writeResponse(200); c.endContent(); c.flush(); CHECK(closed == 1 && d.out.empty(), "active after close");
	}
	while (timeLeft()) scenario(rnd(2), true);
	return 0;
}
