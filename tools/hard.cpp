// Searches for problems whose nodes are removed in as many rounds as possible.
// g++ -O3 hard.cpp && ./a.out WIDTH HEIGHT LEVELS SEED STEPS MODE RESTARTS
// MODE 0: a round looks at all nodes at once, 1: one after another.
// Prints [width, height, levels, smoothness, threshold, rounds, nodes, corrections]: the lines of hard.json.
#include <cstdio>
#include <random>
#include <vector>
#include <cstdlib>
#include <algorithm>
using namespace std;
int W,H,D; mt19937 R;
struct P{ vector<int> av; vector<int> phi; int t,s; };
int idx(int x,int y,int d){return (y*W+x)*D+d;}
bool ex(int x,int d){return x+d<W;}
int dx[4]={1,-1,0,0},dy[4]={0,0,1,-1}; int opp[4]={1,0,3,2};
int pen(const P&p,int x,int y,int d,int k,int e){int X=x+dx[k],Y=y+dy[k];return p.s*(d-e)*(d-e)-p.phi[idx(x,y,d)*4+k]-p.phi[idx(X,Y,e)*4+opp[k]];}
bool eex(int x,int d,int k,int e){ if(k==0) return d<=e+1; if(k==1) return e<=d+1; return true;}
int rounds(const P&p){
  static vector<char> ok; ok.assign(W*H*D*4*D,0);
  for(int y=0;y<H;y++)for(int x=0;x<W;x++)for(int k=0;k<4;k++){int X=x+dx[k],Y=y+dy[k];if(X<0||X>=W||Y<0||Y>=H)continue;
    int m=1e9;for(int d=0;d<D&&ex(x,d);d++)for(int e=0;e<D&&ex(X,e);e++)if(eex(x,d,k,e))m=min(m,pen(p,x,y,d,k,e));
    for(int d=0;d<D&&ex(x,d);d++)for(int e=0;e<D&&ex(X,e);e++)if(eex(x,d,k,e)&&pen(p,x,y,d,k,e)-m<=p.t)ok[(idx(x,y,d)*4+k)*D+e]=1;}
  vector<int> a=p.av; int n=0;
  while(true){ vector<int> rem; 
    for(int y=0;y<H;y++)for(int x=0;x<W;x++)for(int d=0;d<D;d++)if(a[idx(x,y,d)]){ 
      for(int k=0;k<4;k++){int X=x+dx[k],Y=y+dy[k];if(X<0||X>=W||Y<0||Y>=H)continue;bool f=false;for(int e=0;e<D;e++)if(ok[(idx(x,y,d)*4+k)*D+e]&&a[idx(X,Y,e)]){f=true;break;}if(!f){rem.push_back(idx(x,y,d));break;}}}
    if(rem.empty())break; for(int i:rem)a[i]=0; n++; }
  return n;}
int MODE;
int seq(const P&p){
  static vector<char> ok; ok.assign(W*H*D*4*D,0);
  for(int y=0;y<H;y++)for(int x=0;x<W;x++)for(int k=0;k<4;k++){int X=x+dx[k],Y=y+dy[k];if(X<0||X>=W||Y<0||Y>=H)continue;
    int m=1e9;for(int d=0;d<D&&ex(x,d);d++)for(int e=0;e<D&&ex(X,e);e++)if(eex(x,d,k,e))m=min(m,pen(p,x,y,d,k,e));
    for(int d=0;d<D&&ex(x,d);d++)for(int e=0;e<D&&ex(X,e);e++)if(eex(x,d,k,e)&&pen(p,x,y,d,k,e)-m<=p.t)ok[(idx(x,y,d)*4+k)*D+e]=1;}
  vector<int> a=p.av; int n=0;
  while(true){ bool ch=false;
    for(int y=0;y<H;y++)for(int x=0;x<W;x++){bool left=false;for(int d=0;d<D;d++)if(a[idx(x,y,d)]){ bool gone=false;
      for(int k=0;k<4&&!gone;k++){int X=x+dx[k],Y=y+dy[k];if(X<0||X>=W||Y<0||Y>=H)continue;bool f=false;for(int e=0;e<D;e++)if(ok[(idx(x,y,d)*4+k)*D+e]&&a[idx(X,Y,e)]){f=true;break;}if(!f)gone=true;}
      if(gone){a[idx(x,y,d)]=0;ch=true;}else left=true;}
      if(!left)return n+1;}
    if(!ch)break; n++; }
  return n;}
int rate(const P&p){return MODE?seq(p):rounds(p);}
int main(int c,char**v){MODE=atoi(v[6]);P top;W=atoi(v[1]);H=atoi(v[2]);D=atoi(v[3]);R.seed(atoi(v[4]));int best=0;
 long lim=atol(v[5]);
 auto rnd=[&](int a,int b){return a+int(R()%(b-a+1));};
 for(int rs=0;rs<atoi(v[7]);rs++){ P p;p.s=rnd(0,2);p.t=MODE?rnd(4,30):rnd(0,4);p.av.assign(W*H*D,0);p.phi.assign(W*H*D*4,0);
  for(int y=0;y<H;y++)for(int x=0;x<W;x++)for(int d=0;d<D&&ex(x,d);d++){p.av[idx(x,y,d)]=1;for(int k=0;k<4;k++)p.phi[idx(x,y,d)*4+k]=rnd(-4,4);}
  int cur=rate(p);
  for(long i=0;i<lim;i++){ P q=p; int n=rnd(1,3); while(n--){int x=rnd(0,W-1),y=rnd(0,H-1),d=rnd(0,min(D,W-x)-1);int z=rnd(0,9);
     if(z<3)q.av[idx(x,y,d)]^=1; else if(z==9){if(rnd(0,1))q.t=MODE?rnd(0,30):rnd(0,6);else q.s=rnd(0,3);} else q.phi[idx(x,y,d)*4+rnd(0,3)]=rnd(-6,6);}
   int r=rate(q); if(r>=cur){cur=r;p=q;} }
  if(cur>best){best=cur;top=p;fprintf(stderr,"%dx%dx%d mode %d rounds %d pixels %d w+h %d\n",W,H,D,MODE,best,W*H,W+H);}
 }
printf("[%d,%d,%d,%d,%d,%d,[",W,H,D,top.s,top.t,best);bool f=true;for(int y=0;y<H;y++)for(int x=0;x<W;x++)for(int d=0;d<D&&ex(x,d);d++)if(top.av[idx(x,y,d)]){printf("%s[%d,%d]",f?"":",",y*W+x+1,d);f=false;}
printf("],[");f=true;for(int y=0;y<H;y++)for(int x=0;x<W;x++)for(int k=0;k<4;k++){int X=x+dx[k],Y=y+dy[k];if(X<0||X>=W||Y<0||Y>=H)continue;for(int d=0;d<D&&ex(x,d);d++)if(top.phi[idx(x,y,d)*4+k]){printf("%s[%d,%d,%d,%d]",f?"":",",y*W+x+1,k,d,top.phi[idx(x,y,d)*4+k]);f=false;}}
printf("]]\n");}
