//! {"quick":["0-5","10-14"],"thorough":["0-5","10-14","20-25","30"],"level":"model_checking",
//!  "reach":["pairs","quoted","comment","number","badnumber","integer","app","long"],
//!  "bounds":["comments, names, values and white space of 16 lengths from 70 to 20000 characters","every file of 5 (thorough: 6) characters over {letter, other letter, blank, newline, hash, quote} after a fixed option name","every numeric value text of 3 (thorough 4) and integer value text of 4 characters over {digits 0 1 7, + - . e E d D, junk}","every integer in the 64 bit range","two lines naming real options with arbitrary numbers, decorated with comments, quotes and blank lines, on top of values set before with and without permission to overwrite"],
//!  "assumptions":["strtod and strtol are the C library functions; numbers are exchanged as exact tokens in the application cases"],
//!  "outside":["longer files; other character sets"]}
#include "hs.h"
#include "IpRegOptions.hpp"
#include "IpOptionsList.hpp"
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
typedef std::vector<std::string> VS;
// independent reading of a file: tokens, and whether it ends inside a quotation
static bool tokens(const std::string& s, VS& out)
{
   size_t i = 0, n = s.size();
   while( true )
   {
      while( i < n && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '#') ) { if( s[i] == '#' ) { REACH("comment"); while( i < n && s[i] != '\n' ) i++; } else i++; }
      if( i >= n ) return true;
      std::string t;
      if( s[i] == '"' ) { REACH("quoted"); i++; while( i < n && s[i] != '"' ) t += s[i++]; if( i >= n ) return false; i++; }
      while( i < n && !(s[i] == ' ' || s[i] == '\n' || s[i] == '\t') ) t += s[i++];
      out.push_back(t);
   }
}
static std::string low(std::string s) { for( size_t i = 0; i < s.size(); i++ ) if( s[i] >= 'A' && s[i] <= 'Z' ) s[i] += 'a' - 'A'; return s; }
static char pickc(const char* name, const char* set) { int n = (int) strlen(set); return set[symfork(name, 0, n - 1)]; }
static SmartPtr<Journalist> jour;
static int run(OptionsList& o, const std::string& text) { std::istringstream is(text); try { return o.ReadFromStream(*jour, is, true) ? 1 : 0; } catch( OPTION_INVALID& ) { return -1; } }
static bool num(const std::string& s) { size_t i = 0; int d = 0; if( i < s.size() && (s[i] == '+' || s[i] == '-') ) i++; while( i < s.size() && s[i] >= '0' && s[i] <= '9' ) { i++; d++; } if( i < s.size() && s[i] == '.' ) { i++; while( i < s.size() && s[i] >= '0' && s[i] <= '9' ) { i++; d++; } } if( !d ) return false; if( i == s.size() ) return true;
   if( !strchr("eEdD", s[i]) ) return false; i++; if( i < s.size() && (s[i] == '+' || s[i] == '-') ) i++; size_t b = i; while( i < s.size() && s[i] >= '0' && s[i] <= '9' ) i++; return i == s.size() && i > b; }
extern "C" int sym_main()
{
   int c = __sym_case(); jour = new Journalist();
   if( c < 6 || (c >= 20 && c < 26) )
   {
      static const char S[] = "xY \n#\""; int K = c >= 20 ? 6 : 5; std::string t = "A "; t += S[c % 20 % 6]; for( int i = 1; i < K; i++ ) t += pickc(nm("char", i), S);
      VS tk; bool closed = tokens(t, tk); OptionsList o; int r = run(o, t);
      (void) closed; CHECK(r == (tk.size() % 2 == 0 ? 1 : 0), "reading reports a failure exactly if an option name has no complete value"); REACH("pairs");
      for( size_t i = 0; i + 1 < tk.size(); i += 2 ) { std::string v = tk[i + 1]; for( size_t j = i + 2; j + 1 < tk.size(); j += 2 ) if( low(tk[j]) == low(tk[i]) ) v = tk[j + 1]; std::string g; bool f = o.GetStringValue(tk[i], g, ""); CHECK(f, "every option of the file is set"); CHECK(g == v, "the value is the text of the file"); }
      std::string l; o.PrintList(l); size_t nl = 0; for( size_t i = 0; i < l.size(); i++ ) if( l[i] == '\n' ) nl++; std::vector<std::string> seen; for( size_t i = 0; i + 1 < tk.size(); i += 2 ) { bool dup = false; for( size_t j = 0; j < seen.size(); j++ ) dup |= seen[j] == low(tk[i]); if( !dup ) seen.push_back(low(tk[i])); }
      bool nlval = false; for( size_t i = 0; i < tk.size(); i++ ) if( tk[i].find('\n') != std::string::npos ) nlval = true; if( !nlval ) CHECK(nl == seen.size() + 1, "nothing else is set");
      return 0;
   }
   if( c == 10 || c == 11 || c == 30 )
   {
      SmartPtr<RegisteredOptions> reg = new RegisteredOptions(); SmartPtr<OptionsList> o = new OptionsList(); o->SetRegisteredOptions(reg); reg->AddNumberOption("val", "d", .25); reg->AddBoundedIntegerOption("cnt", "d", -70, 2147483647, 3); reg->AddStringOption1("str", "d", "zz", "*", "anything"); reg->AddIntegerOption("after", "d", 1);
      bool isint = c == 11; int K = isint ? 4 : c == 30 ? 4 : 3; std::string v; const char* set = isint ? "07-+z" : "01.-edDz"; for( int i = 0; i < K; i++ ) v += pickc(nm("char", i), set);
      std::string t = isint ? "cnt " : "val "; t += v; t += "\nafter 9"; int r = run(*o, t); Index g, af; o->GetIntegerValue("after", af, "");
      if( !isint ) { bool ok = num(v); std::string w = v; for( size_t i = 0; i < w.size(); i++ ) if( w[i] == 'd' || w[i] == 'D' ) w[i] = 'e'; CHECK(r == (ok ? 1 : -1), "a numeric value is accepted exactly if it is a number"); Number x; o->GetNumericValue("val", x, ""); if( ok ) { double e = strtod(w.c_str(), NULL); CHECK(x == e, "numeric value of the file"); REACH("number"); } else { CHECK(x == .25, "default kept"); REACH("badnumber"); } CHECK(af == (ok ? 9 : 1), "reading stops at an invalid value"); }
      else { size_t b = (v[0] == '-' || v[0] == '+') ? 1 : 0; bool ok = v.size() > b; long e = 0; for( size_t i = b; i < v.size(); i++ ) { if( v[i] < '0' || v[i] > '9' ) ok = false; e = 10 * e + (v[i] - '0'); } if( v[0] == '-' ) e = -e; bool in = ok && e >= -70; o->GetIntegerValue("cnt", g, ""); CHECK(r == (in ? 1 : -1), "an integer value is accepted exactly if it is an integer within its limits"); CHECK(g == (in ? e : 3), "integer value of the file"); CHECK(af == (in ? 9 : 1), "reading stops at an invalid value"); REACH("integer"); }
      return 0;
   }
   if( c == 12 )
   { // integers of any size; empty and blank quoted values
      SmartPtr<RegisteredOptions> reg = new RegisteredOptions(); SmartPtr<OptionsList> o = new OptionsList(); o->SetRegisteredOptions(reg); reg->AddLowerBoundedIntegerOption("cnt", "d", -70, 3); reg->AddNumberOption("val", "d", .25); reg->AddStringOption1("str", "d", "zz", "*", "anything"); REACH("integer");
      int k = symfork("kind", 0, 4);
      if( k == 0 ) { long v = __sym_long("value"); char b[64]; snprintf(b, 64, "%ld", v); std::string t = std::string("cnt ") + b + "\n"; int r = run(*o, t); bool in = (v >= -70) & (v <= 2147483647L); CHECK(r == (in ? 1 : -1), "an integer is accepted exactly if it is within its limits and representable"); Index g; o->GetIntegerValue("cnt", g, ""); CHECK(g == (in ? v : 3L), "integer value of the file"); }
      else { static const char* q[5] = {"", "\"\"", "\" \"", "\"\" ", "\"z\"\""}; std::string s; Index g; Number x;
         { OptionsList p; p.SetRegisteredOptions(reg); int r = run(p, std::string("str ") + (k == 4 ? "\"\"" : q[k]) + "\ncnt 5\n"); CHECK(r == 1, "a quoted value is a value"); p.GetStringValue("str", s, ""); CHECK(s == (k == 2 ? " " : ""), "quoted value"); p.GetIntegerValue("cnt", g, ""); CHECK(g == 5, "the next option is read"); }
         { OptionsList p; p.SetRegisteredOptions(reg); CHECK(run(p, std::string("cnt ") + q[k] + "\n") == -1, "no number at all is not an integer"); p.GetIntegerValue("cnt", g, ""); CHECK(g == 3, "integer default kept"); }
         { OptionsList p; p.SetRegisteredOptions(reg); CHECK(run(p, std::string("val ") + q[k] + "\n") == -1, "no number at all is not a number"); p.GetNumericValue("val", x, ""); CHECK(x == .25, "number default kept"); } REACH("quoted"); }
      return 0;
   }
   if( c == 14 )
   { // long comments, names, values and many lines
      static const int L[] = {70, 78, 79, 80, 81, 127, 128, 255, 256, 257, 511, 1023, 1024, 4095, 4096, 20000}; int n = L[symfork("length", 0, 15)], k = symfork("what", 0, 3); OptionsList o; std::string g, big(n, 'q'), t; REACH("long");
      if( k == 0 ) { t = "a 1\n#" + big + " b 2\nc 3 # " + big + " d 4"; CHECK(run(o, t) == 1, "reading succeeds"); CHECK(!o.GetStringValue("b", g, "") && !o.GetStringValue("d", g, ""), "a comment ends at the end of the line"); CHECK(o.GetStringValue("c", g, "") && g == "3", "line after a long comment"); }
      if( k == 1 ) { t = "a " + big + "\nb \"" + big + " x\"\nc 3\n"; CHECK(run(o, t) == 1, "reading succeeds"); CHECK(o.GetStringValue("a", g, "") && g == big, "long value"); CHECK(o.GetStringValue("b", g, "") && g == big + " x", "long quoted value"); CHECK(o.GetStringValue("c", g, "") && g == "3", "line after a long value"); }
      if( k == 2 ) { t = "a" + big + " 1\nb 2"; CHECK(run(o, t) == 1, "reading succeeds"); CHECK(o.GetStringValue("a" + big, g, "") && g == "1", "long name"); CHECK(!o.GetStringValue("a", g, ""), "long name is one name"); CHECK(o.GetStringValue("b", g, "") && g == "2", "line after a long name"); }
      if( k == 3 ) { if( n > 600 ) return 0; t = std::string(n, symbf("tabs") ? '\t' : '\n') + "a" + std::string(n, ' ') + "1"; for( int i = 0; i < n; i += 9 ) { char b[40]; snprintf(b, 40, "\no%d %d", i, i + 7); t += b; } CHECK(run(o, t) == 1, "reading succeeds"); CHECK(o.GetStringValue("a", g, "") && g == "1", "value after much white space"); for( int i = 0; i < n; i += 9 ) { char b[40], w[40]; snprintf(b, 40, "o%d", i); snprintf(w, 40, "%d", i + 7); CHECK(o.GetStringValue(b, g, "") && g == w, "every one of many options is set"); } }
      return 0;
   }
   { // application: real options, prior settings, decoration
      SmartPtr<IpoptApplication> a = new IpoptApplication(false, false); double v = symd("tol", -1e3, 1e3); int mi = symi("max_iter", -5, 500000); char b1[64], b2[64]; snprintf(b1, 64, "%.17g", v); snprintf(b2, 64, "%d", mi); int dec = symfork("decoration", 0, 3), pre = symfork("before", 0, 3), order = symfork("order", 0, 1), third = symfork("third", 0, 3); REACH("app");
      if( pre & 1 ) a->Options()->SetNumericValue("tol", .5, false); if( pre & 2 ) a->Options()->SetIntegerValue("max_iter", 77, true);
      std::string l1 = dec == 1 ? "tol \"" : "tol "; l1 += b1; if( dec == 1 ) l1 += "\""; std::string l2 = dec == 2 ? "#c tol 5\n\n  max_iter\n\t" : "max_iter "; l2 += b2; if( dec == 3 ) { l1 += " # max_iter 3"; l2 += "\t"; }
      static const char* th[4] = {"", "mu_strategy Adaptive\n", "mu_strategy adaptivee\n", "no_such_option 1\n"}; std::string text = (order ? l2 + "\n" + l1 + "\n" : l1 + "\n" + l2 + "\n"); text = third == 1 ? th[1] + text : text + th[third]; std::istringstream is(text);
      ApplicationReturnStatus st = a->Initialize(is); bool g1 = v > 0., g2 = mi >= 0; CHECK(st == ((g1 & g2 & (third < 2)) ? Solve_Succeeded : Invalid_Option), "reading succeeds exactly if every line is valid");
      Number t; bool ft = a->Options()->GetNumericValue("tol", t, ""); Index it; bool fi = a->Options()->GetIntegerValue("max_iter", it, ""); bool take1 = order ? (g1 & g2) : g1, take2 = order ? g2 : (g1 & g2); take1 = __sym_decide(take1) != 0; take2 = __sym_decide(take2) != 0;
      CHECK(ft == ((pre & 1) || take1), "tolerance known"); CHECK(t == ((pre & 1) ? .5 : take1 ? v : 1e-8), "tolerance from the file unless protected"); CHECK(fi == ((pre & 2) || take2), "limit known"); CHECK(it == (take2 ? mi : (pre & 2) ? 77 : 3000), "limit from the file");
      std::string ms; a->Options()->GetStringValue("mu_strategy", ms, ""); CHECK(ms == (third == 1 ? "adaptive" : "monotone"), "string option from the file");
   }
   return 0;
}
