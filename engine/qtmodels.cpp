// Models of the Qt functions that transport numbers: files (bytes keep their symbolic meaning by path and
// offset), printed and parsed numbers (by token, in order of printing) and QVariant (by value).
#include "symrt.h"
#include <QFile>
#include <QTextStream>
#include <QString>
#include <QVariant>
#include <QFileInfo>
#include <string.h>
#include <map>
#include <vector>
#include <string>
using namespace symrt;
extern "C" double __real__ZNK7QString8toDoubleEPb(const QString*, bool*);
namespace {
double parse(const QString& t) { QString q = t.trimmed(); bool ok = false; return __real__ZNK7QString8toDoubleEPb(&q, &ok); }
typedef std::map<long long, Cell> Bytes;
std::map<std::string, Bytes>& files() { static std::map<std::string, Bytes>* f = new std::map<std::string, Bytes>; return *f; }
std::string key(QFileDevice* f) { return QFileInfo(f->fileName()).absoluteFilePath().toStdString(); }
struct Tok { std::string text; bool real; u32 node; u64 val; };
std::vector<Tok>& toks() { static std::vector<Tok>* t = new std::vector<Tok>; return *t; }
size_t g_cursor = 0;
u64 bits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
u32 shadow_of(unsigned leaf, u64 v) { u32 e = arg(leaf); return e && node(e).val == v ? e : 0; }
// value of e after printing with the given digits and parsing
u32 rounded(u32 e, double v, double back, int digits, bool fixed)
{
	if(!e) return 0;
	if(!fixed && digits >= 17 && bits(v) == bits(back)) return e;
	return mk(SYO_ROUNDTEXT, SYT_F64, e, 0, 0, fixed ? 1000 + digits : digits, bits(back));
}
void put(const QString& text, bool real, u32 e, u64 v) { toks().push_back(Tok{text.trimmed().toStdString(), real, e, v}); }
u32 find(const std::string& text, bool real, u64 v)
{
	std::vector<Tok>& t = toks();
	for(size_t k = 0; k < t.size(); ++k)
	{
		size_t i = (g_cursor + k) % t.size();
		if(t[i].text == text && t[i].real == real && t[i].val == v) { g_cursor = i + 1; return t[i].node; }
	}
	return 0;
}
std::map<std::pair<int, u64>, u32>& variants() { static std::map<std::pair<int, u64>, u32>* t = new std::map<std::pair<int, u64>, u32>; return *t; }
void copyfmt(QTextStream& d, const QTextStream& s)
{
	d.setRealNumberPrecision(s.realNumberPrecision()); d.setRealNumberNotation(s.realNumberNotation()); d.setNumberFlags(s.numberFlags()); d.setIntegerBase(s.integerBase()); d.setLocale(s.locale());
}
bool tofile(QTextStream* s) { return s->device() && dynamic_cast<QFileDevice*>(s->device()); }
}
extern "C" {
// ---- files
qint64 __real__ZN9QIODevice5writeEPKcx(QIODevice*, const char*, qint64);
qint64 __wrap__ZN9QIODevice5writeEPKcx(QIODevice* d, const char* p, qint64 n)
{
	native_enter((const void*)__wrap__ZN9QIODevice5writeEPKcx); call_done();
	QFileDevice* f = dynamic_cast<QFileDevice*>(d); long long at = f ? f->pos() : 0;
	qint64 r = __real__ZN9QIODevice5writeEPKcx(d, p, n);
	if(f && r > 0)
	{
		Bytes& b = files()[key(f)];
		for(qint64 i = 0; i < r; ++i) { Cell c; if(shadow_get_byte(p + i, c)) b[at + i] = c; else b.erase(at + i); }
	}
	call_done();
	return r;
}
qint64 __real__ZN9QIODevice4readEPcx(QIODevice*, char*, qint64);
qint64 __wrap__ZN9QIODevice4readEPcx(QIODevice* d, char* p, qint64 n)
{
	native_enter((const void*)__wrap__ZN9QIODevice4readEPcx); call_done();
	QFileDevice* f = dynamic_cast<QFileDevice*>(d); long long at = f ? f->pos() : 0;
	qint64 r = __real__ZN9QIODevice4readEPcx(d, p, n);
	if(r > 0)
	{
		shadow_clear(p, r);
		if(f)
		{
			auto it = files().find(key(f));
			if(it != files().end()) for(auto k = it->second.lower_bound(at); k != it->second.end() && k->first < at + r; ++k)
			{
				const Cell& c = k->second;
				if(((node(c.node).val >> (8 * c.off)) & 255) == (unsigned char)p[k->first - at]) shadow_set_byte(p + (k->first - at), c);
			}
		}
	}
	call_done();
	return r;
}
// ---- printing
QTextStream& __real__ZN11QTextStreamlsEd(QTextStream*, double);
QTextStream& __wrap__ZN11QTextStreamlsEd(QTextStream* s, double v)
{
	native_enter((const void*)__wrap__ZN11QTextStreamlsEd);
	u32 e = shadow_of(1, bits(v)); call_done();
	if(tofile(s))
	{
		QString t; { QTextStream q(&t); copyfmt(q, *s); __real__ZN11QTextStreamlsEd(&q, v); }
		double back = parse(t); bool fx = s->realNumberNotation() == QTextStream::FixedNotation;
		put(t, true, rounded(e, v, back, s->realNumberPrecision() + (s->realNumberNotation() == QTextStream::ScientificNotation), fx), bits(back));
	}
	else if(e) leak(e, "QTextStream", "text");
	QTextStream& r = __real__ZN11QTextStreamlsEd(s, v);
	call_done();
	return r;
}
#define INTOUT(M, T, CAST, W) \
QTextStream& __real__ZN11QTextStreamlsE##M(QTextStream*, T); \
QTextStream& __wrap__ZN11QTextStreamlsE##M(QTextStream* s, T v) \
{ \
	native_enter((const void*)__wrap__ZN11QTextStreamlsE##M); \
	u64 w = W == 64 ? u64(v) : u64(CAST(v)); u32 e = shadow_of(1, w); call_done(); \
	if(tofile(s)) \
	{ \
		QString t; { QTextStream q(&t); copyfmt(q, *s); __real__ZN11QTextStreamlsE##M(&q, v); } \
		u32 e64 = e; if(e && W != 64) e64 = mk(sizeof(T) == 4 && (T)-1 < (T)0 ? SYO_SEXT : SYO_ZEXT, 64, e, 0, 0, 0, u64(v)); \
		put(t, false, e64, u64(v)); \
	} \
	QTextStream& r = __real__ZN11QTextStreamlsE##M(s, v); \
	call_done(); \
	return r; \
}
INTOUT(m, unsigned long, u64, 64)
INTOUT(y, unsigned long long, u64, 64)
INTOUT(l, long, u64, 64)
INTOUT(x, long long, u64, 64)
INTOUT(i, int, uint32_t, 32)
INTOUT(j, unsigned, uint32_t, 32)
QString __real__ZN7QString6numberEdci(double, char, int);
QString __wrap__ZN7QString6numberEdci(double v, char f, int prec)
{
	native_enter((const void*)__wrap__ZN7QString6numberEdci);
	u32 e = shadow_of(1, bits(v)); call_done();
	QString t = __real__ZN7QString6numberEdci(v, f, prec);
	double back = parse(t);
	if(e) put(t, true, rounded(e, v, back, prec + (f == 'e' || f == 'E'), f == 'f'), bits(back));
	call_done();
	return t;
}
// ---- parsing
double __real__ZNK7QString8toDoubleEPb(const QString*, bool*);
double __wrap__ZNK7QString8toDoubleEPb(const QString* s, bool* ok)
{
	native_enter((const void*)__wrap__ZNK7QString8toDoubleEPb); call_done();
	bool o = false; double v = __real__ZNK7QString8toDoubleEPb(s, &o);
	if(ok) { *ok = o; shadow_clear(ok, 1); }
	u32 e = o ? find(s->trimmed().toStdString(), true, bits(v)) : 0;
	call_done(); if(e) ret(0, e);
	return v;
}
#define INTIN(NAME, T, W) \
T __real_##NAME(const QString*, bool*, int); \
T __wrap_##NAME(const QString* s, bool* ok, int base) \
{ \
	native_enter((const void*)__wrap_##NAME); call_done(); \
	bool o = false; T v = __real_##NAME(s, &o, base); \
	if(ok) { *ok = o; shadow_clear(ok, 1); } \
	u32 e = o ? find(s->trimmed().toStdString(), false, u64(v)) : 0; \
	call_done(); if(e) ret(0, W == 64 ? e : mk(SYO_TRUNC, W, e, 0, 0, 0, uint32_t(v))); \
	return v; \
}
INTIN(_ZNK7QString11toULongLongEPbi, unsigned long long, 64)
INTIN(_ZNK7QString10toLongLongEPbi, long long, 64)
INTIN(_ZNK7QString5toIntEPbi, int, 32)
INTIN(_ZNK7QString6toUIntEPbi, unsigned, 32)
INTIN(_ZNK7QString6toLongEPbi, long, 64)
INTIN(_ZNK7QString7toULongEPbi, unsigned long, 64)
// ---- QVariant: symbolic meaning found again by value
void __real__ZN8QVariantC1Ed(QVariant*, double);
void __wrap__ZN8QVariantC1Ed(QVariant* q, double v)
{
	native_enter((const void*)__wrap__ZN8QVariantC1Ed);
	u32 e = shadow_of(1, bits(v)); if(e) variants()[std::make_pair(1, bits(v))] = e;
	call_done(); __real__ZN8QVariantC1Ed(q, v); call_done();
}
double __real__ZNK8QVariant8toDoubleEPb(const QVariant*, bool*);
double __wrap__ZNK8QVariant8toDoubleEPb(const QVariant* q, bool* ok)
{
	native_enter((const void*)__wrap__ZNK8QVariant8toDoubleEPb); call_done();
	double v = __real__ZNK8QVariant8toDoubleEPb(q, ok);
	if(ok) shadow_clear(ok, 1);
	u32 e = 0;
	if(q->type() == QVariant::String) e = find(q->toString().trimmed().toStdString(), true, bits(v));
	else { auto it = variants().find(std::make_pair(1, bits(v))); if(it != variants().end()) e = it->second; }
	call_done(); if(e) ret(0, e);
	return v;
}
}
