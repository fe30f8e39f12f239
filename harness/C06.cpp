//! {"quick":["0-5","fp:6"],"level":"model_checking","mode":"real","reach":["number","integer","history","strings","registered","prefix"],
//!  "bounds":["numeric and integer options with every combination of bounds and strictness, arbitrary value (also for a second assignment after it; also every IEEE double including NaN and infinities)","histories of 4 set/unset/set-if-unset operations with arbitrary integer values and arbitrary overwrite permissions over two options, with and without prefix","string options with arbitrary 2-character values","all options registered by the solver for their defaults"],
//!  "assumptions":["a number printed with fewer than 17 significant digits reads back as a different number"],
//!  "outside":["printing of options"]}
#include "hs.h"
#include "IpRegOptions.hpp"
#include "IpOptionsList.hpp"
static SmartPtr<RegisteredOptions> reg; static SmartPtr<OptionsList> ol;
static void init() { reg = new RegisteredOptions(); ol = new OptionsList(); ol->SetRegisteredOptions(reg); }
static bool thrown(int what, const char* tag) { bool t = false; Number d; Index i; std::string s; try { if( what == 0 ) ol->GetNumericValue(tag, d, ""); else if( what == 1 ) ol->GetIntegerValue(tag, i, ""); else ol->GetStringValue(tag, s, ""); } catch( OPTION_INVALID& ) { t = true; } return t; }
struct M { bool set; int v; bool clob; };
extern "C" int sym_main()
{
   int c = __sym_case(); init();
   if( c == 0 || c == 6 ) {
      int lo = symfork("lower", 0, 2), up = symfork("upper", 0, 2); const char* nmx = "opt_num";
      if( lo && up ) reg->AddBoundedNumberOption(nmx, "d", -1.5, lo == 2, 2.5, up == 2, .25); else if( lo ) reg->AddLowerBoundedNumberOption(nmx, "d", -1.5, lo == 2, .25); else if( up ) reg->AddUpperBoundedNumberOption(nmx, "d", 2.5, up == 2, .25); else reg->AddNumberOption(nmx, "d", .25);
      if( c == 6 ) { double v = symd("any"); bool in = v == v; if( lo == 1 ) in = in && v >= -1.5; if( lo == 2 ) in = in && v > -1.5; if( up == 1 ) in = in && v <= 2.5; if( up == 2 ) in = in && v < 2.5; SmartPtr<const RegisteredOption> o = reg->GetOption(nmx); bool r = o->IsValidNumberSetting(v); CHECK(r == in, "value valid exactly if it is a number within its bounds"); return 0; }
      REACH("number"); double g = 0.; CHECK(!ol->GetNumericValue("opt_num", g, "") && g == .25, "default of an unset option");
      double last = .25; bool isset = false;
      for( int k = 0; k < 2; k++ ) { double v = symd("v"); if( symbf("fine") ) { ASSUME(v > 1.0000000000000004 && v < 1.0000000000000012); } else ASSUME(v > -1e10 && v < 1e10);
         bool in = true; if( lo == 1 ) in = in && v >= -1.5; if( lo == 2 ) in = in && v > -1.5; if( up == 1 ) in = in && v <= 2.5; if( up == 2 ) in = in && v < 2.5;
         bool r = ol->SetNumericValue("opt_num", v); CHECK(r == in, "value accepted exactly if within its bounds"); if( r ) { last = v; isset = true; }
         bool f = ol->GetNumericValue("opt_num", g, ""); CHECK(f == isset, "option known as set"); CHECK(g == last, "last accepted value is returned exactly"); }
      CHECK(!ol->SetIntegerValue("opt_num", 1) && !ol->SetStringValue("opt_num", "1"), "wrong type refused"); CHECK(thrown(1, "opt_num") && thrown(2, "opt_num") && thrown(0, "nosuch"), "wrong type or unknown name raises an error"); CHECK(!ol->SetNumericValue("nosuch", 1.), "unknown name refused"); ol->GetNumericValue("opt_num", g, ""); CHECK(g == last, "value unchanged by refused settings"); }
   if( c == 1 ) {
      int lo = symfork("lower", 0, 1), up = symfork("upper", 0, 1); const char* nmx = "opt_int";
      if( lo && up ) reg->AddBoundedIntegerOption(nmx, "d", -3, 7, 2); else if( lo ) reg->AddLowerBoundedIntegerOption(nmx, "d", -3, 2); else if( up ) reg->AddUpperBoundedIntegerOption(nmx, "d", 7, 2); else reg->AddIntegerOption(nmx, "d", 2);
      REACH("integer"); Index g = 0; CHECK(!ol->GetIntegerValue("opt_int", g, "") && g == 2, "default of an unset option"); int last = 2; bool isset = false;
      for( int k = 0; k < 2; k++ ) { int v = __sym_int("v"); bool in = true; if( lo ) in = in && v >= -3; if( up ) in = in && v <= 7; bool r = ol->SetIntegerValue("opt_int", v); CHECK(r == in, "value accepted exactly if within its bounds"); if( r ) { last = v; isset = true; } bool f = ol->GetIntegerValue("opt_int", g, ""); CHECK(f == isset, "option known as set"); CHECK(g == last, "last accepted value is returned exactly"); }
      CHECK(!ol->SetNumericValue("opt_int", 1.) && !ol->SetStringValue("opt_int", "1") && thrown(0, "opt_int") && thrown(2, "opt_int"), "wrong type refused"); }
   if( c == 2 || c == 5 ) { // histories against a reference model
      reg->AddIntegerOption("a", "d", 5); reg->AddIntegerOption("b", "d", 6); REACH("history"); static const char* tg[3] = {"a", "b", "P.a"}; M m[3] = {{false, 0, true}, {false, 0, true}, {false, 0, true}}; int steps = c == 2 ? 3 : 4;
      for( int k = 0; k < steps; k++ ) { int op = symfork(nm("op", k), 0, 2), w = symfork(nm("tag", k), 0, c == 5 ? 0 : 2); int v = __sym_int(nm("val", k)); bool cl = op == 2 ? true : symbf(nm("clobber", k)); M& x = m[w];
         if( op == 0 ) { bool r = ol->SetIntegerValue(tg[w], v, cl); CHECK(r, "set reports success"); if( !x.set || x.clob ) { x.set = true; x.v = v; x.clob = cl; } }
         if( op == 1 ) { bool r = ol->SetIntegerValueIfUnset(tg[w], v, cl); CHECK(r, "set-if-unset reports success"); bool seen = x.set || (w == 2 && false); if( !seen ) { x.set = true; x.v = v; x.clob = cl; } }
         if( op == 2 ) { bool r = ol->UnsetValue(tg[w]); CHECK(r == (x.set && x.clob), "unset reports whether something was removed"); if( x.set && x.clob ) x.set = false; }
         OptionsList* q = GetRawPtr(ol); SmartPtr<OptionsList> cp; if( k == steps - 1 ) { cp = new OptionsList(*ol); ol->SetIntegerValue("b", 1234567); ol->UnsetValue("a"); ol->UnsetValue("P.a"); q = GetRawPtr(cp); }
         Index g; bool f = q->GetIntegerValue("a", g, ""); CHECK(f == m[0].set && g == (m[0].set ? m[0].v : 5), "value of option a follows the history"); f = q->GetIntegerValue("b", g, ""); CHECK(f == m[1].set && g == (m[1].set ? m[1].v : 6), "value of option b follows the history");
         f = q->GetIntegerValue("a", g, "P."); REACH("prefix"); CHECK(f == (m[2].set || m[0].set) && g == (m[2].set ? m[2].v : m[0].set ? m[0].v : 5), "prefixed request prefers the prefixed value"); f = q->GetIntegerValue("b", g, "P."); CHECK(f == m[1].set && g == (m[1].set ? m[1].v : 6), "prefixed request falls back to the plain value"); } }
   if( c == 3 ) { std::vector<std::string> st, ds; st.push_back("ab"); st.push_back("Cd"); st.push_back("x"); ds.resize(3, "d"); reg->AddStringOption("so", "d", "Cd", st, ds); reg->AddStringOption1("any", "d", "zz", "*", "anything"); reg->AddBoolOption("bo", "d", true); REACH("strings");
      std::string v; char b[3]; int n = symfork("len", 1, 2); for( int i = 0; i < n; i++ ) { int ch = __sym_char(nm("ch", i)); ASSUME(ch > 32 && ch < 127); b[i] = (char) ch; } b[n] = 0; v = b;
      int want = -1; if( n == 2 && (b[0] == 'a' || b[0] == 'A') && (b[1] == 'b' || b[1] == 'B') ) want = 0; if( n == 2 && (b[0] == 'c' || b[0] == 'C') && (b[1] == 'd' || b[1] == 'D') ) want = 1; if( n == 1 && (b[0] == 'x' || b[0] == 'X') ) want = 2;
      std::string g; CHECK(!ol->GetStringValue("so", g, "") && g == "Cd", "default of an unset option"); Index e; CHECK(!ol->GetEnumValue("so", e, ""), "an unset option is reported as unset"); CHECK(e == 1, "default setting number"); bool r = ol->SetStringValue("so", v); CHECK(r == (want >= 0), "setting accepted exactly if registered, ignoring case"); bool f = ol->GetStringValue("so", g, ""); CHECK(f == r && g == (want < 0 ? "Cd" : st[want]), "registered spelling is returned"); CHECK(ol->GetEnumValue("so", e, "") == r, "a set option is reported as set"); CHECK(e == (want < 0 ? 1 : want), "setting number");
      r = ol->SetStringValue("any", v); CHECK(r, "free text accepted"); ol->GetStringValue("any", g, ""); CHECK(g.size() == (size_t) n && g[0] == b[0] && (n == 1 || g[1] == b[1]), "free text is returned unchanged");
      bool bv; CHECK(!ol->GetBoolValue("bo", bv, "") && bv, "default of a switch"); bool sv = symbf("bool"); ol->SetBoolValue("bo", sv); CHECK(ol->GetBoolValue("bo", bv, "") && bv == sv, "switch returned as set"); CHECK(!ol->SetNumericValue("so", 1.) && !ol->SetIntegerValue("so", 1) && thrown(0, "so") && thrown(1, "so"), "wrong type refused"); }
   if( c == 4 ) { SmartPtr<IpoptApplication> app = mkapp(); SmartPtr<OptionsList> o = new OptionsList(); SmartPtr<RegisteredOptions> r = app->RegOptions(); o->SetRegisteredOptions(r); REACH("registered"); int cnt = 0; double x = symd("x"); ASSUME(x > -1e5 && x < 1e5);
      const RegisteredOptions::RegOptionsList& L = r->RegisteredOptionsList(); for( RegisteredOptions::RegOptionsList::const_iterator it = L.begin(); it != L.end(); ++it ) { SmartPtr<RegisteredOption> p = it->second; cnt++; std::string n = p->Name();
         if( p->Type() == OT_Number ) { double v; o->GetNumericValue(n, v, ""); CHECK(v == p->DefaultNumber(), "default returned"); CHECK(p->IsValidNumberSetting(v), "default valid"); bool in = true; if( p->HasLower() ) in = in & (p->LowerStrict() ? x > p->LowerNumber() : x >= p->LowerNumber()); if( p->HasUpper() ) in = in & (p->UpperStrict() ? x < p->UpperNumber() : x <= p->UpperNumber()); CHECK(p->IsValidNumberSetting(x) == in, "validity of a number"); }
         else if( p->Type() == OT_Integer ) { Index v; o->GetIntegerValue(n, v, ""); CHECK(v == p->DefaultInteger() && p->IsValidIntegerSetting(v), "default returned and valid"); }
         else if( p->Type() == OT_String ) { std::string v; o->GetStringValue(n, v, ""); CHECK(v == p->DefaultString() && p->IsValidStringSetting(v), "default returned and valid"); } } CHECK(cnt > 100, "options are registered"); }
   return 0;
}
