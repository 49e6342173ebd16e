// Strict reader for the LaTeX form of a HOMFLY polynomial:  [-]t ( [+-] t)*,  t = [k][a^{i}][z^{j}]
#ifndef LATEXPOLY_HPP
#define LATEXPOLY_HPP
static bool parse_latex(const char*s,Poly&p,std::string&why){ p.clear(); const char*c=s; bool first=true; while(*c||first){ int sg=1; if(first){ if(*c=='-'){ sg=-1; c++; } } else { if(!strncmp(c," + ",3)) c+=3; else if(!strncmp(c," - ",3)){ sg=-1; c+=3; } else { why=mc_fmt("separator at '%s'",c); return false; } } first=false;
    long long k=1; int l=0,m=0; bool any=false; if(*c>='0'&&*c<='9'){ k=strtoll(c,(char**)&c,10); any=true; if(k==0){ why="zero coefficient"; return false; } }
    auto pw=[&](char v,int&e){ if(*c==v){ if(c[1]!='^'||c[2]!='{') return false; char*q; e=strtol(c+3,&q,10); if(q==c+3||*q!='}'||e==0) return false; c=q+1; any=true; } return true; };
    if(!pw('a',l)||!pw('z',m)){ why="bad power"; return false; } if(!any){ why="empty term"; return false; } if(p.count({l,m})){ why="repeated term"; return false; } p[{l,m}]=sg*k; } return true; }
#endif
