//@ property: C16
//@ src: cross-level/queue-cl.c cross-level/alloc-cl.c
//@ fn: create_queue enqueue dequeue
#include "vc.h"
#include "cross-level/queue-cl.h"
int N, size, W_j, k, in, out, bad, wx, wy, x, y, r;
queue_t q; int *op; short *vx, *vy;

void pre(void){
  N = DIM(0, 100000000, 12); size = DIM(1, 100000000, 3);
  op = ARR(int, N); vx = ARR(short, N); vy = ARR(short, N);
  W_j = vc_range(0, N);
}
/* any history of operations; the W_j-th entry that was put in is followed, in/out count the successful operations */
void run(void){
  create_queue(&q, size);
  in = out = bad = 0;
  for (k=0; k<N; k++){
    if (op[k] > 0){
      r = enqueue(&q, vx[k], vy[k]);
      if ((r == SUCCESS) != (in-out < size-1)) bad = 1;
      if (r != SUCCESS && r != FAILURE) bad = 1;
      if (r == SUCCESS){ if (in == W_j){ wx = vx[k]; wy = vy[k]; } in++; }
    } else {
      x = y = 77777;
      r = dequeue(&q, &x, &y);
      if ((r == SUCCESS) != (in-out > 0)) bad = 1;
      if (r != SUCCESS && r != FAILURE) bad = 1;
      if (r == SUCCESS){ if (out == W_j && (x != wx || y != wy)) bad = 1; out++; }
      else if (x != 77777 || y != 77777) bad = 1;
    }
  }
}
void post(void){
  ENSURE("entries leave in the order they entered, unaltered, and only a full or empty queue refuses", !bad);
}
#define POS(i) (q.tail+(i) < q.size ? q.tail+(i) : q.tail+(i)-q.size)
void hint_ok(void){ HINT(!bad); }
void hint_state(void){ HINT(q.size == size && q.head >= 0 && q.head < size && q.tail >= 0 && q.tail < size && out >= 0 && in-out == (q.head >= q.tail ? q.head-q.tail : q.head-q.tail+size)); }
void hint_bound(void){ HINT(in <= k); }
void hint_entry(void){ HINT(W_j < out || W_j >= in || (q.buf_x[POS(W_j-out)] == wx && q.buf_y[POS(W_j-out)] == wy)); }
VC_MAIN
