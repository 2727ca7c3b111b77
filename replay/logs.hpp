// reading the text of an event log
#pragma once
#include "common.hpp"
struct Entry{ double t; int step; string kind; bool hasv; double v; };
// parses the text; false if it is not a list of numbered entries
static bool readlog(const string&s,vector<Entry>&E){ E.clear(); istringstream in(s); string l; int n=0; while(getline(in,l)){ Entry e; istringstream q(l); string a,b,c,d; int k; if(!(q>>k>>a>>e.t>>b>>e.step>>c>>e.kind)||k!=++n||a!="Time:"||b!="step:"||c!="Event:") return false; e.hasv=false; e.v=0; if(q>>a){ if(!(q>>b>>e.v)||a!="new"||b!="step:"||q>>c) return false; e.hasv=true; } bool w=e.kind=="changedH"||e.kind=="rejectedStep"; if(w!=e.hasv) return false; E.push_back(e); } return true; }
static const char*KN[5]={"success","rejectedStep","NewtonFailed","NewtonWillNotConverge","changedH"};
// the text without the numbers of the entries
static vector<string> lines(const string&s){ vector<string> r; istringstream in(s); string l; while(getline(in,l)){ size_t p=l.find(' '); r.push_back(p==string::npos?l:l.substr(p)); } return r; }
// the log of an object: every filter shows exactly the entries of its kind, in order
template<class L> bool logtext(const L&g,vector<Entry>&E){ string all=g.tostring(); if(all!=g.tostring(odes::all)){ FAIL("log-filter","the filter 'all' does not show everything | "+curcase); return false; } ostringstream o; o<<g; if(o.str()!=all){ FAIL("log-stream","the stream operator writes something else | "+curcase); return false; }
  if(!readlog(all,E)){ FAIL("log-format",S("the log cannot be read: ",all.substr(0,200)," | ",curcase)); return false; } vector<string> la=lines(all);
  for(int k=0;k<5;k++){ vector<string> w; for(size_t i=0;i<E.size();i++) if(E[i].kind==KN[k]) w.push_back(la[i]); string f=g.tostring((odes::eventType)k); vector<Entry> Q; if(lines(f)!=w||!readlog(f,Q)){ FAIL("log-filter",S("the filter ",KN[k]," shows ",lines(f).size()," entries, ",w.size()," were logged | ",curcase)); return false; } }
  return true; }
static bool near6(double a,double b,double rel){ if(!std::isfinite(a)||!std::isfinite(b)) return !std::isfinite(a)&&!std::isfinite(b); return fabs(a-b)<=1.5e-6+rel*(fabs(a)+fabs(b)); }
// the logger by itself: arbitrary entries
static void logunit(Rng&g,int rep){ for(int r=0;r<rep;r++){ odes::logger L; vector<Entry> W; int sess=g.i(1,3); for(int s=0;s<sess;s++){ if(s||g.i(0,1)) L.clear(),W.clear(); int n=g.i(0,40); for(int i=0;i<n;i++){ Entry e; e.t=g.u(-1e3,1e3); e.step=g.i(0,1000000); int k=g.i(0,4); e.kind=KN[k]; e.v=g.u(-1e3,1e3); L.put(e.t,e.step,(odes::eventType)k,e.v); W.push_back(e); if(g.i(0,9)==0&&W.size()>0){ W.push_back(e); L.put(e.t,e.step,(odes::eventType)k,e.v);} }
    CASE(S("logger by itself ",r," ",s," ",W.size()," entries")); vector<Entry> E; if(!logtext(L,E)) continue; if(E.size()!=W.size()){ FAIL("log-unit",S(E.size()," entries shown, ",W.size()," put | ",curcase)); continue; } for(size_t i=0;i<E.size();i++){ string t=to_string(W[i].t); char b[64]; snprintf(b,sizeof b,"%f",E[i].t); if(t!=b||E[i].step!=W[i].step||E[i].kind!=W[i].kind||(E[i].hasv&&fabs(E[i].v-W[i].v)>6e-7)){ FAIL("log-unit",S("entry ",i+1," differs from what was put | ",curcase)); break; } } ++nnontriv; } } }
