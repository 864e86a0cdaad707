import os
exec(open("/verif/tools/seeds/s1.py").read().split("SEEDS=[")[0])
SEEDS=[
dict(id="C22-firstslash",property="C22",edits=[(C+"Grammar.cpp","base_path.find_last_of('/')","base_path.find_first_of('/')")],
 needs="an include from a file two or more directories deep",breaks="include paths are taken relative to the wrong directory",srcs='"$c"/Grammar.cpp "$c"/ATN.cpp "$c"/CharClass.cpp "$c"/CompositeATN.cpp "$c"/Util.cpp',demo=r'''
#include "Grammar.hpp"
#include <fstream>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace Centaurus;
int main(){ char d[]="/tmp/demoXXXXXX"; if(!mkdtemp(d)) return 9; std::string b=d; mkdir((b+"/s").c_str(),0700); { std::ofstream(b+"/s/m")<<"include \"f\"; A:'a';"; std::ofstream(b+"/s/f")<<"B:'b';"; }
  Grammar<unsigned char> g; int r=1; try{ g.parse(b+"/s/m"); r=g.get_machine_num()==2&&g.get_root_id()==L"B"?0:1; }catch(...){}
  unlink((b+"/s/m").c_str()); unlink((b+"/s/f").c_str()); rmdir((b+"/s").c_str()); rmdir(d); return r; }
'''),
dict(id="C22-semicolon",property="C22",edits=[(C+"Grammar.cpp","            ch = stream.skip_whitespace();\n            if (ch != L';')\n                throw stream.unexpected(ch);\n            stream.discard();\n\n            Encoder","            ch = stream.skip_whitespace();\n            if (ch != L'\\0')\n                stream.discard();\n\n            Encoder")],
 needs="an include directive ended by another character than a semicolon",breaks="a malformed include directive is accepted",srcs='"$c"/Grammar.cpp "$c"/ATN.cpp "$c"/CharClass.cpp "$c"/CompositeATN.cpp "$c"/Util.cpp',demo=r'''
#include "Grammar.hpp"
#include <fstream>
#include <stdlib.h>
#include <unistd.h>
using namespace Centaurus;
int main(){ char d[]="/tmp/demoXXXXXX"; if(!mkdtemp(d)) return 9; std::string b=d; { std::ofstream(b+"/m")<<"include \"f\": A:'a';"; std::ofstream(b+"/f")<<"B:'b';"; }
  Grammar<unsigned char> g; int r=1; try{ g.parse(b+"/m"); }catch(StreamException&){ r=0; }
  unlink((b+"/m").c_str()); unlink((b+"/f").c_str()); rmdir(d); return r; }
'''),
dict(id="C22-enumorder",property="C22",edits=[(C+"Grammar.hpp","		for (int i = 0; i < m_identifiers.size(); i++)\n		{\n			callback(m_identifiers[i].str().c_str(), i + 1);\n		}","		int id = 0;\n		for (const auto& p : m_networks)\n		{\n			callback(p.first.str().c_str(), ++id);\n		}")],
 needs="two or more rules, enumerated in hash order",breaks="enumeration reports numbers with other rules' names",srcs='"$c"/Grammar.cpp "$c"/ATN.cpp "$c"/CharClass.cpp "$c"/CompositeATN.cpp "$c"/Util.cpp',demo=r'''
#include "Grammar.hpp"
#include <fstream>
#include <stdlib.h>
#include <unistd.h>
using namespace Centaurus;
static bool bad=false; static Grammar<unsigned char> g; static void cb(const wchar_t*n,int id){ if(g.get_machine_id(Identifier(n))!=id) bad=true; }
int main(){ char d[]="/tmp/demoXXXXXX"; if(!mkdtemp(d)) return 9; std::string b=d; { std::ofstream(b+"/m")<<"A:'a';B:'b';C:'c';D:'d';E:'e';F:'f';"; } g.parse(b+"/m"); g.enum_machines(cb); unlink((b+"/m").c_str()); rmdir(d); return bad?1:0; }
'''),
dict(id="C23-litend",property="C23",edits=[(C+"ATN.cpp","    for (; ch != L'\\0' && ch != leader; ch = stream.get())\n","    for (; ch != leader; ch = stream.get())\n")],
 needs="a literal that the end of the file cuts off",breaks="reading never terminates",srcs='"$c"/Grammar.cpp "$c"/ATN.cpp "$c"/CharClass.cpp "$c"/CompositeATN.cpp "$c"/Util.cpp',demo=r'''
#include "Grammar.hpp"
#include <fstream>
#include <stdlib.h>
#include <unistd.h>
#include <sys/resource.h>
using namespace Centaurus;
static char d[]="/tmp/demoXXXXXX";
int main(){ if(!mkdtemp(d)) return 9; std::string b=d; { std::ofstream(b+"/m")<<"A:'a"; } struct rlimit l={1<<28,1<<28}; setrlimit(RLIMIT_AS,&l); alarm(20);
  Grammar<unsigned char> g; int r=1; try{ g.parse(b+"/m"); }catch(StreamException&){ r=0; }catch(...){} unlink((b+"/m").c_str()); rmdir(d); return r; }
'''),
dict(id="C23-optgroup",property="C23",edits=[(C+"ATN.cpp","	m_nodes.emplace_back();\n	int final_node = m_nodes.size() - 1;\n	for (int from : terminal_states)","	if (terminal_states.size() > 1 && terminal_states.back() != m_nodes.size() - 1) m_nodes.emplace_back();\n	m_nodes.emplace_back();\n	int final_node = m_nodes.size() - 1;\n	for (int from : terminal_states)")],
 needs="x",breaks="x",srcs='"$c"/Grammar.cpp "$c"/ATN.cpp "$c"/CharClass.cpp "$c"/CompositeATN.cpp "$c"/Util.cpp',demo="int main(){return 0;}"),
][:-1]
