// Simulated disk format of h5part files, also used by the host to prepare inputs and to read outputs.
#pragma once
#include "core.h"
struct HAttr { int type=0; string data; };
struct HObj { bool dset=false; map<string,HAttr> attrs; int type=0; vector<u64> dims; string data; };
struct HContent { map<string,HObj> o; // path without leading '/', "" is the root
  HContent(){ o[""]; } };
string h5_serialize(const HContent&); bool h5_parse(const string&,HContent&);
bool h5_host_read(const string& path,HContent&); bool h5_host_write(const string& path,const HContent&);
size_t h5_tsize(int type); double h5_get(int type,const void*p); 
vector<double> h5_doubles(const HContent&,const string&path); vector<i64> h5_ints(const HContent&,const string&path);
void h5_put(HContent&,const string&path,const vector<double>&); void h5_puti(HContent&,const string&path,const vector<i64>&); void h5_puti32(HContent&,const string&path,const vector<i64>&);
void h5_attr(HContent&,const string&obj,const string&name,double v); void h5_attri(HContent&,const string&obj,const string&name,i64 v); void h5_attri32(HContent&,const string&obj,const string&name,int v);
bool h5_get_attr(const HContent&,const string&obj,const string&name,double&v); bool h5_get_attri(const HContent&,const string&obj,const string&name,i64&v);
void h5_unlinked(const string&path);
