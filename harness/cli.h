// Parameters of an engine or a solver, given directly (cli=0) or as command line arguments (cli=1; cli=2: in reverse
// order, among arguments that mean nothing).
#ifndef CLI_H
#define CLI_H
#include "common.h"
#include "nbody_arg_parser.h"
struct Args
{
	int cli; QVariantMap typed; std::vector<std::string> text;
	Args() : cli(sym_param("cli", 0)) {}
	void put(const char* k, const QVariant& v, const std::string& t) { if(cli) text.push_back(std::string("--") + k + "=" + t); else typed.insert(k, v); }
	void s(const char* k, const char* v) { put(k, QString(v), v); }
	void i(const char* k, long v) { put(k, qlonglong(v), std::to_string(v)); }
	void b(const char* k, bool v) { put(k, v, v ? "true" : "false"); }
	void d(const char* k, double v) { if(cli) put(k, QVariant(), QString::number(v, 'g', 17).toStdString()); else put(k, v, ""); }
	QVariantMap map()
	{
		if(!cli) return typed;
		std::vector<std::string> a(1, "nbody-simulation");
		if(cli == 2) { a.push_back("stray"); a.push_back("-x=1"); a.push_back("__solver=none"); a.push_back("-+engine=none"); }
		for(size_t k = 0; k < text.size(); ++k) { a.push_back(text[cli == 2 ? text.size() - 1 - k : k]); if(cli == 2 && !k) { a.push_back("--flag"); a.push_back("engine=none"); a.push_back("--solver"); a.push_back("="); a.push_back("--engine=none=none"); a.push_back("--solver=="); a.push_back("++solver=none"); a.push_back("xxengine=none"); } }
		if(cli == 2) for(const char* x : {"xxengine=none", "--engine=none=none", "++solver=none", "--solver==", "-=tree_layout=none"}) a.push_back(x);
		std::vector<char*> v; for(auto& x : a) v.push_back(&x[0]);
		v.push_back(NULL);
		return nbody_parse_arguments(int(a.size()), v.data());
	}
};
#endif
