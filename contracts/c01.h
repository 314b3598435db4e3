/* documented layout of the quality word (docs: Quality Assurance Information) */
#define NVAL(f) ((f)==1||(f)==5||(f)==9 ? 4 : 2)
/* value of flag f in word w by the documented layout; 12: the unused top bit */
static int field(int w, int f){
  int u = w & 65535;
  switch (f){
    case 0: return u % 2;
    case 1: return (u / 2) % 4;
    case 2: return (u / 8) % 2;
    case 3: return (u / 16) % 2;
    case 4: return (u / 32) % 2;
    case 5: return (u / 64) % 4;
    case 6: return (u / 256) % 2;
    case 7: return (u / 512) % 2;
    case 8: return (u / 1024) % 2;
    case 9: return (u / 2048) % 4;
    case 10: return (u / 8192) % 2;
    case 11: return (u / 16384) % 2;
  }
  return u / 32768;
}
