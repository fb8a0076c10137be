// Instantiates the header-only functions of pillow that the contracts are about (no pillow code is copied here).
#include "ByteArrayHelpers.h"
#include "HttpHeader.h"
#include "private/ByteArray.h"

namespace Pillow { namespace ByteArrayHelpers {
template void appendNumber<int, 10>(QByteArray&, const int);
template void appendNumber<int, 16>(QByteArray&, const int);
template void appendNumber<qint64, 10>(QByteArray&, const qint64);
template void appendNumber<qint64, 16>(QByteArray&, const qint64);
} }
using namespace Pillow::ByteArrayHelpers;
void* pvc_instantiate[] = {
	(void*)(bool(*)(const QByteArray&, const QByteArray&)) asciiEqualsCaseInsensitive,
	(void*)(bool(*)(const QByteArray&, const QLatin1Literal&)) asciiEqualsCaseInsensitive,
	(void*)(bool(*)(const char*, int, const char*, int)) asciiEqualsCaseInsensitive,
	(void*)(bool(*)(const QByteArray&, const Pillow::Token&)) asciiEqualsCaseInsensitive,
	(void*)(bool(*)(const QByteArray&, const Pillow::LowerCaseToken&)) asciiEqualsCaseInsensitive,
	(void*) unhex, (void*) percentDecodeInPlace,
	(void*)(QString(*)(const QByteArray&)) percentDecode, (void*)(QString(*)(const char*, int)) percentDecode,
	(void*) setFromRawData, (void*) setFromRawDataAndNullterm,
};
// Pillow::ByteArray::append overloads, reached through one caller each.
namespace pvc {
void ba_header(Pillow::ByteArray& t, const Pillow::HttpHeader& h) { t.append(h); }
void ba_latin1(Pillow::ByteArray& t, const QLatin1Literal& h) { t.append(h); }
void ba_token(Pillow::ByteArray& t, const Pillow::Token& h) { t.append(h); }
void ba_ltoken(Pillow::ByteArray& t, const Pillow::LowerCaseToken& h) { t.append(h); }
void ba_bytes(Pillow::ByteArray& t, const QByteArray& h) { t.append(h); }
void ba_lit2(Pillow::ByteArray& t) { t.append("\r\n"); }
void ba_ptr(Pillow::ByteArray& t, const char* p, int n) { t.append(p, n); }
void ba_char(Pillow::ByteArray& t, char c) { t.append(c); }
void ba_assign(Pillow::ByteArray& t, const QByteArray& o) { t = o; }
bool ba_eq_latin1(const Pillow::ByteArray& t, const QLatin1Literal& h) { return t == h; }
bool ba_ne_latin1(const Pillow::ByteArray& t, const QLatin1Literal& h) { return t != h; }
bool ba_eq_token(const Pillow::ByteArray& t, const Pillow::Token& h) { return t == h; }
bool ba_ne_token(const Pillow::ByteArray& t, const Pillow::Token& h) { return t != h; }
bool ba_eq_ltoken(const Pillow::ByteArray& t, const Pillow::LowerCaseToken& h) { return t == h; }
bool ba_ne_ltoken(const Pillow::ByteArray& t, const Pillow::LowerCaseToken& h) { return t != h; }
}
// HttpHeader.h inline functions, one caller each.
using Pillow::HttpHeaderCollection; using Pillow::HttpHeader;
namespace pvc {
const QByteArray& hc_get_ba(const HttpHeaderCollection& c, const QByteArray& n) { return c.getFieldValue(n); }
const QByteArray& hc_get_lit(const HttpHeaderCollection& c) { return c.getFieldValue("Host"); }
const QByteArray& hc_get_tok(const HttpHeaderCollection& c, const Pillow::Token& t) { return c.getFieldValue(t); }
QVector<QByteArray> hc_gets_ba(const HttpHeaderCollection& c, const QByteArray& n) { return c.getFieldValues(n); }
QVector<QByteArray> hc_gets_lit(const HttpHeaderCollection& c) { return c.getFieldValues("Host"); }
bool hc_test_ll(const HttpHeaderCollection& c) { return c.testFieldValue("Host", "val"); }
bool hc_test_tt(const HttpHeaderCollection& c, const Pillow::Token& t, const Pillow::Token& u) { return c.testFieldValue(t, u); }
bool hc_test_lt(const HttpHeaderCollection& c, const Pillow::Token& u) { return c.testFieldValue("Host", u); }
bool hc_test_tl(const HttpHeaderCollection& c, const Pillow::Token& t) { return c.testFieldValue(t, "val"); }
void hc_append(HttpHeaderCollection& c, const HttpHeader& h) { c += h; }
void hc_shift(HttpHeaderCollection& c, const HttpHeader& h) { c << h; }
HttpHeader hh_two() { return HttpHeader("Host", "val"); }
HttpHeader hh_ba(const QByteArray& a, const QByteArray& b) { return HttpHeader(a, b); }
HttpHeader hh_copy(const HttpHeader& a) { return HttpHeader(a); }
HttpHeader hh_pair(const QPair<QByteArray, QByteArray>& a) { return HttpHeader(a); }
void hh_assign(HttpHeader& t, const HttpHeader& a) { t = a; }
void hh_assign_pair(HttpHeader& t, const QPair<QByteArray, QByteArray>& a) { t = a; }
HttpHeader hh_raw() { return HttpHeader("Host: val"); }
bool hh_eq(const HttpHeader& a, const HttpHeader& b) { return a == b; }
bool hh_ne(const HttpHeader& a, const HttpHeader& b) { return a != b; }
}
