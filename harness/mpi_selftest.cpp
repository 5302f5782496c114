// The model checker against programs whose answer is known (deadlocks, results that
// depend on the schedule, correct ones); P10 gives no answer if it gets one wrong.
#include "explore.h"
using namespace mpx;
int main(int c,char**v){ mc::init(c,v);
 // 0: send-send head to head
 auto b0=[](int r){ MPI_Init(0,0); int x=r,y; MPI_Send(&x,1,MPI_INT,1-r,0,0); MPI_Recv(&y,1,MPI_INT,1-r,0,0,MPI_STATUS_IGNORE); MPI_Finalize(); return 0;};
 Bounds B; 
 mc::item("a"); explore("sendsend","sendsend",2,{},b0,[]{return 1ul;},B);
 // isend then barrier then recv
 auto b1=[](int r){ MPI_Init(0,0); int x=r,y; MPI_Request q; MPI_Isend(&x,1,MPI_INT,1-r,0,0,&q); MPI_Barrier(0); MPI_Recv(&y,1,MPI_INT,1-r,0,0,MPI_STATUS_IGNORE); MPI_Wait(&q,0); MPI_Finalize(); return y==1-r?0:1;};
 mc::item("b"); explore("ok","isend",2,{},b1,[]{return 1ul;},B);
 // send, barrier, recv : deadlock w/o buffering
 auto b2=[](int r){ MPI_Init(0,0); int x=r,y; if(r==0) MPI_Send(&x,1,MPI_INT,1,0,0); MPI_Barrier(0); if(r==1) MPI_Recv(&y,1,MPI_INT,0,0,0,MPI_STATUS_IGNORE); MPI_Finalize(); return 0;};
 mc::item("c"); explore("sendbarrier","sendbarrier",2,{},b2,[]{return 1ul;},B);
 // ring with sends
 auto b3=[](int r){ MPI_Init(0,0); int x=r,y; MPI_Sendrecv(&x,1,MPI_INT,(r+1)%3,0,&y,1,MPI_INT,(r+2)%3,0,0,MPI_STATUS_IGNORE); if(y!=(r+2)%3) return 3; MPI_Finalize(); return 0;};
 mc::item("d"); explore("ring","ring",3,{},b3,[]{return 1ul;},B);
 // bsend
 auto b4=[](int r){ MPI_Init(0,0); int x=r,y; MPI_Bsend(&x,1,MPI_INT,1-r,0,0); MPI_Recv(&y,1,MPI_INT,1-r,0,0,MPI_STATUS_IGNORE); MPI_Finalize(); return 0;};
 mc::item("e"); explore("bsend","bsend",2,{},b4,[]{return 1ul;},B);
 // schedule-dependent via any source
 static Shared<int> o(4);
 auto b5=[](int r){ MPI_Init(0,0); int x=r,y=0; if(r) MPI_Send(&x,1,MPI_INT,0,0,0); else for(int k=0;k<2;k++){ MPI_Recv(&y,1,MPI_INT,MPI_ANY_SOURCE,0,0,MPI_STATUS_IGNORE); o[k]=y;} MPI_Finalize(); return 0;};
 mc::item("f"); explore("any","any",3,{},b5,[]{return (uint64_t)(o[0]*8+o[1]);},B);
 // self message
 auto b6=[](int r){ MPI_Init(0,0); int x=r+5,y=0; MPI_Sendrecv(&x,1,MPI_INT,r,7,&y,1,MPI_INT,r,7,0,MPI_STATUS_IGNORE); MPI_Finalize(); return y==r+5?0:1;};
 mc::item("g"); explore("self","self",2,{},b6,[]{return 1ul;},B);
 return mc::done(); }
