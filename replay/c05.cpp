#include "conn.h"
int main(int ac, char** av)
{
	QCoreApplication app(ac, av); init();
	// every status code around the table, every special header alone and twice
	for (int code = -1; code <= 1000 && timeLeft(); ++code) for (int k = 0; k < 3; ++k)
	{
		Req r = mkReq(false); r.method = "GET"; g_case = "status " + std::to_string(code) + " request " + esc(r.raw); Op o; o.k = Op::Response; o.status = code; o.data = rnd(2) ? "x" : ""; if (rnd(2)) o.headers = mkHeaders(); g_case += opText(o);
		HttpConnection c; Dev d; r.raw = "GET " + r.uri() + " " + r.version + "\r\n"; for (auto& h : r.headers) r.raw += h.first + ": " + h.second + "\r\n"; r.raw += "\r\n"; d.in.push_back(r.raw); Model m; m.apply(r, o);
		QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection*) { doOp(&c, o); }); c.initialize(&d, &d); d.pump(); CHECK(d.out == m.out, "written %s expected %s", esc(d.out).c_str(), esc(m.out).c_str()); if (c.state() != HttpConnection::Closed) c.close();
	}
	while (timeLeft()) scenario(false, false);
	return 0;
}
